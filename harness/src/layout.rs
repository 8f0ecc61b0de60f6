//! File layout judged byte by byte with an independent parser (C09), and writing to hostile outputs (C13).
use crate::attrq::*;
use crate::equiv::*;
use crate::gen::*;
use crate::lib_io::*;
use crate::rep::*;
use fcb_core::FcbWriter;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Write};
use std::sync::{Arc, Mutex};

type R<T> = Result<T, String>;

// ---- a minimal FlatBuffers reader, written from the format's documentation ----
pub struct Fb<'a>(pub &'a [u8]);
impl Fb<'_> {
    pub fn bytes(&self, p: usize, n: usize) -> R<&[u8]> {
        p.checked_add(n).and_then(|e| self.0.get(p..e)).ok_or_else(|| format!("{n} bytes at {p} are outside the file"))
    }
    pub fn u16(&self, p: usize) -> R<u16> {
        Ok(u16::from_le_bytes(self.bytes(p, 2)?.try_into().unwrap()))
    }
    pub fn u32(&self, p: usize) -> R<u32> {
        Ok(u32::from_le_bytes(self.bytes(p, 4)?.try_into().unwrap()))
    }
    pub fn i32(&self, p: usize) -> R<i32> {
        Ok(self.u32(p)? as i32)
    }
    pub fn u64(&self, p: usize) -> R<u64> {
        Ok(u64::from_le_bytes(self.bytes(p, 8)?.try_into().unwrap()))
    }
    pub fn f64(&self, p: usize) -> R<f64> {
        Ok(f64::from_bits(self.u64(p)?))
    }
    /// position of field `id` of the table at `t`, if present
    pub fn field(&self, t: usize, id: usize) -> R<Option<usize>> {
        let vt = (t as i64 - self.i32(t)? as i64) as usize;
        let vlen = self.u16(vt)? as usize;
        if 4 + 2 * id + 2 > vlen {
            return Ok(None);
        }
        let o = self.u16(vt + 4 + 2 * id)? as usize;
        Ok((o != 0).then_some(t + o))
    }
    pub fn deref(&self, p: usize) -> R<usize> {
        Ok(p + self.u32(p)? as usize)
    }
    /// (position of the first element, length) of a vector field
    pub fn vector(&self, t: usize, id: usize) -> R<Option<(usize, usize)>> {
        match self.field(t, id)? {
            None => Ok(None),
            Some(f) => {
                let v = self.deref(f)?;
                Ok(Some((v + 4, self.u32(v)? as usize)))
            }
        }
    }
    pub fn string(&self, t: usize, id: usize) -> R<Option<String>> {
        match self.vector(t, id)? {
            None => Ok(None),
            Some((p, n)) => String::from_utf8(self.bytes(p, n)?.to_vec()).map(Some).map_err(|e| e.to_string()),
        }
    }
}

#[derive(Debug, Clone)]
pub struct AttrIdx {
    pub col: u16,
    pub begin: usize,
    pub len: usize,
    pub bf: usize,
    pub unique: usize,
}
#[derive(Debug, Clone)]
pub struct Parsed {
    pub features_count: u64,
    pub node_size: u16,
    pub columns: Vec<(u16, String, u8)>,
    pub rtree: (usize, usize),
    pub attrs: Vec<AttrIdx>,
    pub feats_begin: usize,
    /// (offset from feats_begin, total size, id, vertices' xy)
    pub feats: Vec<(usize, usize, String, Vec<(i32, i32)>)>,
}

pub fn rtree_levels(n: usize, b: usize) -> Vec<usize> {
    // leaf level first
    let mut v = vec![n];
    while v.len() == 1 || *v.last().unwrap() > 1 {
        v.push(v.last().unwrap().div_ceil(b));
    }
    v
}
pub fn btree_nodes(n: usize, b: usize) -> usize {
    let mut m = n;
    let mut tot = n;
    loop {
        m = m.div_ceil(b);
        tot += m;
        if m < b {
            return tot;
        }
    }
}

pub fn parse(b: &[u8]) -> R<Parsed> {
    let f = Fb(b);
    if f.bytes(0, 8)? != b"fcb\x01fcb\0" {
        return Err(format!("magic bytes are {:?}", &b[..8]));
    }
    let hlen = f.u32(8)? as usize;
    let hend = 12 + hlen;
    f.bytes(12, hlen)?;
    let t = f.deref(12)?;
    let features_count = f.field(t, 4)?.map(|p| f.u64(p)).transpose()?.unwrap_or(0);
    let node_size = f.field(t, 5)?.map(|p| f.u16(p)).transpose()?.unwrap_or(16);
    let mut columns = vec![];
    if let Some((p, n)) = f.vector(t, 2)? {
        for i in 0..n {
            let c = f.deref(p + 4 * i)?;
            let idx = f.field(c, 0)?.map(|p| f.u16(p)).transpose()?.unwrap_or(0);
            let name = f.string(c, 1)?.ok_or("column without a name")?;
            let ty = f.field(c, 2)?.map(|p| f.bytes(p, 1).map(|x| x[0])).transpose()?.unwrap_or(0);
            columns.push((idx, name, ty));
        }
    }
    let rlen = if node_size == 0 || features_count == 0 { 0 } else { rtree_levels(features_count as usize, node_size.max(2) as usize).iter().sum::<usize>() * 40 };
    let mut pos = hend + rlen;
    let mut attrs = vec![];
    if let Some((p, n)) = f.vector(t, 6)? {
        for i in 0..n {
            let q = p + 16 * i;
            let a = AttrIdx { col: f.u16(q)?, begin: pos, len: f.u32(q + 4)? as usize, bf: f.u16(q + 8)? as usize, unique: f.u32(q + 12)? as usize };
            pos += a.len;
            attrs.push(a);
        }
    }
    f.bytes(hend, pos - hend).map_err(|e| format!("indexes: {e}"))?;
    let feats_begin = pos;
    let mut feats = vec![];
    while pos < b.len() {
        let n = f.u32(pos)? as usize;
        f.bytes(pos, 4 + n).map_err(|e| format!("feature {}: {e}", feats.len()))?;
        let t = f.deref(pos + 4)?;
        let id = f.string(t, 0)?.ok_or("feature without an id")?;
        let mut vs = vec![];
        if let Some((p, n)) = f.vector(t, 2)? {
            for i in 0..n {
                vs.push((f.i32(p + 12 * i)?, f.i32(p + 12 * i + 4)?));
            }
        }
        feats.push((pos - feats_begin, 4 + n, id, vs));
        pos += 4 + n;
    }
    Ok(Parsed { features_count, node_size, columns, rtree: (hend, rlen), attrs, feats_begin, feats })
}

/// Turns a file without a spatial index into one with an index of node size `k`: a valid file which this library's
/// writer, with its fixed node size, does not produce. Leaves are in file order.
pub fn renode(b: &[u8], k: u16, scale: [f64; 2], translate: [f64; 2]) -> R<Vec<u8>> {
    let p = parse(b)?;
    if p.node_size != 0 || p.feats.is_empty() || k < 2 {
        return Err("renode: needs a file with features and without index".into());
    }
    let f = Fb(b);
    let slot = f.field(f.deref(12)?, 5)?.ok_or("renode: no node size stored")?;
    const NONE: [f64; 4] = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    let join = |a: [f64; 4], b: [f64; 4]| [a[0].min(b[0]), a[1].min(b[1]), a[2].max(b[2]), a[3].max(b[3])];
    let mut level: Vec<([f64; 4], u64)> = p.feats.iter().map(|x| {
        let bx = x.3.iter().fold(NONE, |a, v| {
            let (x, y) = (v.0 as f64 * scale[0] + translate[0], v.1 as f64 * scale[1] + translate[1]);
            join(a, [x, y, x, y])
        });
        (bx, x.0 as u64)
    }).collect();
    let lv = rtree_levels(level.len(), k as usize);
    let mut start: usize = lv.iter().sum();
    let mut levels = vec![];
    for (i, n) in lv.iter().enumerate() {
        start -= n;
        levels.push(level.clone());
        if i + 1 < lv.len() {
            level = level.chunks(k as usize).enumerate().map(|(j, c)| (c.iter().fold(NONE, |a, b| join(a, b.0)), (start + j * k as usize) as u64)).collect();
        }
    }
    let mut tree = vec![];
    for l in levels.iter().rev() {
        for (bx, off) in l {
            bx.iter().for_each(|v| tree.extend_from_slice(&v.to_le_bytes()));
            tree.extend_from_slice(&off.to_le_bytes());
        }
    }
    let mut out = b[..p.rtree.0].to_vec();
    out[slot..slot + 2].copy_from_slice(&k.to_le_bytes());
    out.extend(&tree);
    out.extend_from_slice(&b[p.rtree.0..]);
    Ok(out)
}
pub const NODE_SIZES: [u16; 12] = [2, 3, 4, 7, 8, 15, 17, 32, 64, 255, 4096, 65535];

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

/// name of the ColumnType byte, in the order of the schema file
const TYPES: [K; 15] = [
    K::Byte, K::UByte, K::Bool, K::Short, K::UShort, K::Int, K::UInt, K::Long, K::ULong, K::Float, K::Double, K::Str, K::Json, K::Date, K::Bin,
];
fn key_len(k: K) -> usize {
    match k {
        K::Byte | K::UByte | K::Bool => 1,
        K::Short | K::UShort => 2,
        K::Int | K::UInt | K::Float => 4,
        K::Long | K::ULong | K::Double => 8,
        K::Date => 12,
        K::Str => 50,
        K::Json | K::Bin => 100,
    }
}
fn key_at(k: K, b: &[u8]) -> Iv {
    let i = |n: usize| -> i128 {
        let mut v = 0u64;
        for j in (0..n).rev() {
            v = v << 8 | b[j] as u64;
        }
        v as i128
    };
    let s = |n: usize| -> i128 {
        let v = i(n);
        if v >> (8 * n - 1) & 1 == 1 { v - (1i128 << (8 * n)) } else { v }
    };
    match k {
        K::Bool => Iv::B(b[0] != 0),
        K::Byte => Iv::I(s(1)),
        K::UByte => Iv::I(i(1)),
        K::Short => Iv::I(s(2)),
        K::UShort => Iv::I(i(2)),
        K::Int => Iv::I(s(4)),
        K::UInt => Iv::I(i(4)),
        K::Long => Iv::I(s(8)),
        K::ULong => Iv::I(i(8)),
        K::Float => Iv::F(f32::from_bits(i(4) as u32) as f64),
        K::Double => Iv::F(f64::from_bits(i(8) as u64)),
        K::Date => Iv::D(s(8) as i64, u32::from_le_bytes(b[8..12].try_into().unwrap())),
        K::Str | K::Json | K::Bin => Iv::S(b.to_vec()),
    }
}

/// Judges one written file against the dataset it was written from; returns (leaves, entries) looked at.
pub fn judge_file(d: &Dataset, b: &[u8]) -> R<BTreeMap<&'static str, u64>> {
    let f = Fb(b);
    let p = parse(b)?;
    let mut seen = BTreeMap::new();
    let n = d.feats_json.len();
    if p.features_count != n as u64 {
        return Err(format!("count: the header declares {} features, {n} were written", p.features_count));
    }
    if p.feats.len() != n {
        return Err(format!("features: {} features between {} and the end of the file, {n} were written", p.feats.len(), p.feats_begin));
    }
    let at: BTreeMap<u64, usize> = p.feats.iter().enumerate().map(|(i, x)| (x.0 as u64, i)).collect();
    let by_id: BTreeMap<&str, usize> = d.feats_json.iter().enumerate().map(|(i, x)| (x["id"].as_str().unwrap(), i)).collect();
    let mut ids = BTreeSet::new();
    for x in &p.feats {
        if !by_id.contains_key(x.2.as_str()) || !ids.insert(x.2.as_str()) {
            return Err(format!("features: {:?} was not written or occurs twice", x.2));
        }
        let want: Vec<(i32, i32)> = d.feats_json[by_id[x.2.as_str()]]["vertices"].as_array().unwrap().iter().map(|v| (v[0].as_i64().unwrap() as i32, v[1].as_i64().unwrap() as i32)).collect();
        if want != x.3 {
            return Err(format!("features: vertices of {:?} differ", x.2));
        }
    }
    // columns in index order, names and types as declared
    let mut cols: Vec<(u16, String)> = d.schema.iter().map(|(n, (i, _))| (*i, n.clone())).collect();
    cols.sort();
    let got: Vec<(u16, String)> = p.columns.iter().map(|c| (c.0, c.1.clone())).collect();
    if cols != got {
        return Err(format!("columns: {got:?}, declared {cols:?}"));
    }
    // spatial index
    let want_index = d.opts.write_index;
    if (p.node_size != 0) != want_index {
        return Err(format!("node_size: {} although an index was {}wanted", p.node_size, if want_index { "" } else { "not " }));
    }
    if p.rtree.1 > 0 {
        let bf = p.node_size as usize;
        let lv = rtree_levels(n, bf);
        let total: usize = lv.iter().sum();
        let mut starts = vec![];
        let mut s = total;
        for x in &lv {
            s -= x;
            starts.push(s);
        }
        let node = |i: usize| -> R<([f64; 4], u64)> {
            let q = p.rtree.0 + 40 * i;
            Ok(([f.f64(q)?, f.f64(q + 8)?, f.f64(q + 16)?, f.f64(q + 24)?], f.u64(q + 32)?))
        };
        let tr = &d.header_json["transform"];
        let g = |k: &str, i: usize| tr[k][i].as_f64().unwrap();
        let mut used = BTreeSet::new();
        for i in 0..n {
            let (bx, off) = node(starts[0] + i)?;
            let Some(fi) = at.get(&off) else {
                return Err(format!("leaf: leaf {i} points at {off}, where no feature starts"));
            };
            if !used.insert(*fi) {
                return Err(format!("leaf: two leaves point at feature {fi}"));
            }
            let vs = &p.feats[*fi].3;
            if vs.is_empty() {
                if bx[0] <= bx[2] && bx[1] <= bx[3] {
                    return Err(format!("leaf: leaf {i} of a feature without vertices bounds {bx:?}"));
                }
                continue;
            }
            let xs: Vec<f64> = vs.iter().map(|v| v.0 as f64 * g("scale", 0) + g("translate", 0)).collect();
            let ys: Vec<f64> = vs.iter().map(|v| v.1 as f64 * g("scale", 1) + g("translate", 1)).collect();
            let mn = |v: &[f64]| v.iter().copied().fold(f64::INFINITY, f64::min);
            let mx = |v: &[f64]| v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            let want = [mn(&xs), mn(&ys), mx(&xs), mx(&ys)];
            if !(0..4).all(|k| close(want[k], bx[k])) {
                return Err(format!("leaf: leaf {i} bounds {bx:?}, its feature {want:?}"));
            }
            *seen.entry("leaves").or_insert(0) += 1;
        }
        for l in 1..lv.len() {
            for i in 0..lv[l] {
                let (bx, off) = node(starts[l] + i)?;
                let first = starts[l - 1] + i * bf;
                if off != first as u64 {
                    return Err(format!("inner: node {i} of level {l} points at node {off}, its children start at {first}"));
                }
                for c in first..(first + bf).min(starts[l - 1] + lv[l - 1]) {
                    let (cb, _) = node(c)?;
                    let empty = !(cb[0] <= cb[2] && cb[1] <= cb[3]);
                    if !empty && !(bx[0] <= cb[0] && bx[1] <= cb[1] && bx[2] >= cb[2] && bx[3] >= cb[3]) {
                        return Err(format!("inner: node {i} of level {l} bounds {bx:?}, which leaves out its child {cb:?}"));
                    }
                }
                *seen.entry("inner_nodes").or_insert(0) += 1;
            }
        }
    }
    // attribute indexes: which ones are there
    let value = |feat: &Value, name: &str| -> Vec<Value> { feat["CityObjects"].as_object().unwrap().values().filter_map(|o| o["attributes"].get(name)).filter(|v| !v.is_null()).cloned().collect() };
    let mut wanted: Vec<(u16, String, Option<u16>)> = vec![];
    for (name, bf) in d.opts.attribute_indices.iter().flatten() {
        let Some((i, _)) = d.schema.get(name) else { continue };
        let ty = p.columns.iter().find(|c| c.0 == *i).unwrap().2;
        if matches!(TYPES[ty as usize], K::Json | K::Bin) {
            continue; // these are stored but not indexed
        }
        if d.feats_json.iter().any(|x| !value(x, name).is_empty()) {
            wanted.push((*i, name.clone(), *bf));
        }
    }
    wanted.sort();
    if wanted.iter().map(|w| w.0).collect::<Vec<_>>() != p.attrs.iter().map(|a| a.col).collect::<Vec<_>>() {
        return Err(format!("attr_order: indexes on columns {:?}, asked for {wanted:?}", p.attrs.iter().map(|a| a.col).collect::<Vec<_>>()));
    }
    for (a, (_, name, bf)) in p.attrs.iter().zip(&wanted) {
        let k = TYPES[p.columns.iter().find(|c| c.0 == a.col).unwrap().2 as usize];
        if let Some(w) = bf {
            if a.bf != (*w as usize).max(2) {
                return Err(format!("attr: index {name} has branching factor {}, asked for {w}", a.bf));
            }
        }
        if a.bf < 2 || a.unique == 0 {
            return Err(format!("attr: index {name}: {a:?}"));
        }
        let sz = key_len(k) + 8;
        let nodes = btree_nodes(a.unique, a.bf);
        if nodes * sz > a.len {
            return Err(format!("attr_size: index {name} of {} keys needs {} bytes, declared {}", a.unique, nodes * sz, a.len));
        }
        // payload entries back to back up to the end
        let pb = a.begin + nodes * sz;
        let pe = a.begin + a.len;
        let mut entries: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        let mut q = pb;
        while q < pe {
            let cnt = f.u32(q)? as usize;
            if cnt == 0 || q + 4 + 8 * cnt > pe {
                return Err(format!("payload: entry of index {name} at {} claims {cnt} offsets", q - pb));
            }
            entries.insert((q - pb) as u64, (0..cnt).map(|i| f.u64(q + 4 + 8 * i)).collect::<R<_>>()?);
            q += 4 + 8 * cnt;
        }
        let mut got: Vec<(usize, Iv)> = vec![];
        let mut prev: Option<Iv> = None;
        for i in 0..a.unique {
            let q = a.begin + (nodes - a.unique + i) * sz;
            let key = key_at(k, f.bytes(q, sz - 8)?);
            if let Some(pk) = &prev {
                if pk.cmp(&key) != Ordering::Less {
                    return Err(format!("attr_keys: keys {} and {i} of index {name} are not ascending", i - 1));
                }
            }
            let off = f.u64(q + sz - 8)?;
            let offs = if off >> 63 == 1 {
                entries.remove(&(off & !(1 << 63))).ok_or_else(|| format!("payload: key {i} of index {name} refers to no entry, or to one used before"))?
            } else {
                vec![off]
            };
            for o in offs {
                let Some(fi) = at.get(&o) else {
                    return Err(format!("attr_offset: index {name} points at {o}, where no feature starts"));
                };
                got.push((by_id[p.feats[*fi].2.as_str()], key.clone()));
                *seen.entry("attribute_entries").or_insert(0) += 1;
            }
            prev = Some(key);
        }
        if !entries.is_empty() {
            return Err(format!("payload: {} entries of index {name} belong to no key", entries.len()));
        }
        let mut want: Vec<(usize, Iv)> = vec![];
        for (i, x) in d.feats_json.iter().enumerate() {
            want.extend(value(x, name).iter().filter_map(|v| iv_of(k, v)).map(|v| (i, v)));
        }
        let norm = |mut v: Vec<(usize, Iv)>| {
            v.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.cmp(&b.1)));
            v.dedup_by(|a, b| a.0 == b.0 && a.1.cmp(&b.1) == Ordering::Equal);
            v
        };
        let (got, want) = (norm(got), norm(want));
        for (i, w) in want.iter().enumerate() {
            if got.get(i).is_none_or(|g| g.0 != w.0 || g.1.cmp(&w.1) != Ordering::Equal) {
                return Err(format!("attr_entries: index {name}, entry {i}: {:?} instead of {w:?} (feature number, value)", got.get(i)));
            }
        }
        if got.len() != want.len() {
            return Err(format!("attr_entries: index {name} has {} entries, expected {}", got.len(), want.len()));
        }
        *seen.entry("attribute_indexes").or_insert(0) += 1;
    }
    Ok(seen)
}

fn big(r: &mut StdRng, max: usize) -> Result<Rich, String> {
    // many light features: several index levels
    let n = r.gen_range(17..max);
    let kinds: Vec<K> = (0..r.gen_range(1..4)).map(|_| *INDEXABLE.choose(r).unwrap()).collect();
    let attrs: Vec<(String, K)> = kinds.iter().enumerate().map(|(i, k)| (format!("a{i}"), *k)).collect();
    let mut index_attrs = vec![];
    for (n, _) in &attrs {
        index_attrs.push((n.clone(), *[None, Some(2), Some(3), Some(8), Some(64)].choose(r).unwrap()));
    }
    index_attrs.shuffle(r);
    let c = DsCfg { n, geom: GeomCfg::default(), max_verts: 3, max_objs: 2, max_geoms: 1, coord: *[20, 100_000].choose(r).unwrap(), attrs, index_attrs, ..Default::default() };
    let mut d = dataset(r, &c);
    // duplicate-heavy values
    if r.gen_bool(0.6) {
        let dom = r.gen_range(1..20);
        for f in &mut d.feats_json {
            for o in f["CityObjects"].as_object_mut().unwrap().values_mut() {
                if let Some(a) = o.get_mut("attributes").and_then(|a| a.as_object_mut()) {
                    for (n, v) in a.iter_mut() {
                        if let Some((_, k)) = c.attrs.iter().find(|x| &x.0 == n) {
                            *v = small_value(r, *k, dom);
                        }
                    }
                }
            }
        }
        d.feats = d.feats_json.iter().map(parse_feature).collect();
    }
    let bytes = Arc::new(write_ds(&d)?);
    Ok(Rich { d, bytes, sels: vec![], desc: format!("{n} light features, {:?}", c.index_attrs) })
}

pub fn c09(ctx: &Ctx, rep: &mut Rep) {
    let f = |r: &mut StdRng, rep: &mut Rep, ds: Result<Rich, String>| {
        let _ = r;
        let ds = match ds {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        match judge_file(&ds.d, &ds.bytes) {
            Ok(seen) => {
                for (k, v) in seen {
                    rep.add(k, v);
                }
            }
            Err(e) => rep.violate(e.split(':').next().unwrap_or("").replace(' ', "_"), format!("{e}; {}", ds.desc)),
        }
        rep.max("max_features", ds.d.feats.len() as u64);
        rep.add("features", ds.d.feats.len() as u64);
        rep.eval((!ds.d.feats.is_empty()).then(|| h(&ds.bytes[..])));
        rep.sample(|| json!({"dataset": ds.desc, "bytes": ds.bytes.len()}));
    };
    run_cases(ctx, rep, "files", ctx.n(27_000, 500_000), |r, _, rep| {
        let ds = rich(r, 40, 0);
        f(r, rep, ds)
    });
    run_cases(ctx, rep, "many", ctx.n(500, 30_000), |r, _, rep| {
        let max = if r.gen_bool(0.1) { 1200 } else { 320 };
        let ds = big(r, max);
        f(r, rep, ds)
    });
    run_cases(ctx, rep, "huge", ctx.n(8, 300), |r, _, rep| {
        let max = *[6_000, 20_000, 70_000].choose(r).unwrap();
        let ds = big(r, max);
        f(r, rep, ds)
    });
}

// ---------------------------------------------------------------------------------------------
// C13

/// what the output does
#[derive(Clone, Debug, Default)]
struct SinkPlan {
    chunk: usize,
    interrupt_every: u64,
    /// once this many bytes were accepted, the next write (or flush, if all were) fails
    fail_after: Option<(usize, Option<io::ErrorKind>)>,
    /// after failing once, go on accepting
    once: bool,
    fail_flush: bool,
}
#[derive(Default)]
struct SinkLog {
    data: Vec<u8>,
    calls: u64,
    failed: u64,
    flushed: u64,
    interrupts: u64,
}
struct Sink {
    plan: SinkPlan,
    log: Arc<Mutex<SinkLog>>,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut l = self.log.lock().unwrap();
        l.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.plan.interrupt_every > 0 && l.calls % self.plan.interrupt_every == 0 {
            l.interrupts += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "injected EINTR"));
        }
        let mut n = b.len().min(self.plan.chunk.max(1));
        if let Some((at, kind)) = self.plan.fail_after {
            if !(self.plan.once && l.failed > 0) {
                let left = at.saturating_sub(l.data.len());
                if left == 0 {
                    l.failed += 1;
                    return match kind {
                        Some(k) => Err(io::Error::new(k, "injected")),
                        None => Ok(0), // "device full"
                    };
                }
                n = n.min(left);
            }
        }
        l.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut l = self.log.lock().unwrap();
        l.flushed += 1;
        if self.plan.fail_flush {
            l.failed += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "injected flush failure"));
        }
        Ok(())
    }
}

fn case_dataset(ctx: &Ctx, case: u64) -> Dataset {
    let mut r = ctx.rng("repro", case);
    rich_data(&mut r, 25, 0).0
}

/// `emit --from A --to B`: prints the digest of every case's file
pub fn emit(ctx: &Ctx, from: u64, to: u64) {
    for c in from..to {
        let d = case_dataset(ctx, c);
        if let Ok(dir) = std::env::var("FCBMON_DUMP") {
            for k in 0..10 {
                let d = reparsed(&d);
                std::fs::write(format!("{dir}/{c}.{k}"), write_ds(&d).unwrap()).unwrap();
            }
        }
        match write_ds(&d) {
            Ok(b) => println!("{c} {:016x} {}", h(&b[..]), b.len()),
            Err(e) => println!("{c} error {}", e.replace('\n', " ")),
        }
    }
}

/// a copy of the dataset whose unordered maps are built anew
fn reparsed(d: &Dataset) -> Dataset {
    let mut schema: Vec<_> = d.schema.clone().into_iter().collect();
    schema.reverse();
    Dataset {
        header: parse_header(&d.header_json),
        header_json: d.header_json.clone(),
        feats: d.feats_json.iter().map(parse_feature).collect(),
        feats_json: d.feats_json.clone(),
        schema: schema.into_iter().collect(),
        sem_schema: d.sem_schema.clone().map(|s| s.into_iter().collect()),
        opts: d.opts.clone(),
    }
}

pub fn c13(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "sinks", ctx.n(1_500, 60_000), |r, _, rep| {
        let ds = match rich(r, 25, 0) {
            Ok(d) => d,
            Err(e) => return rep.violate("write", e),
        };
        let want = &ds.bytes[..];
        let len = want.len();
        let kinds = [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero, io::ErrorKind::StorageFull, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut];
        let mut plans: Vec<(SinkPlan, Option<usize>)> = vec![];
        for chunk in [1usize, 3, 64, 4096, usize::MAX] {
            let cap = if r.gen_bool(0.3) { Some(r.gen_range(1..10_000)) } else { None };
            plans.push((SinkPlan { chunk, interrupt_every: *[0, 2, 5].choose(r).unwrap(), ..Default::default() }, cap));
        }
        plans.push((SinkPlan { chunk: usize::MAX, fail_flush: true, ..Default::default() }, None));
        plans.push((SinkPlan { chunk: usize::MAX, fail_flush: true, ..Default::default() }, Some(100)));
        let header_end = 12 + u32::from_le_bytes(want[8..12].try_into().unwrap()) as usize;
        let interesting = [0, 1, 7, 8, 9, header_end - 1, header_end, header_end + 1, len - 1, len.saturating_sub(2)];
        for i in 0..30 {
            let at = if i < interesting.len() { interesting[i] } else { r.gen_range(0..len) };
            if at >= len {
                continue;
            }
            let kind = if r.gen_bool(0.15) { None } else { Some(*kinds.choose(r).unwrap()) };
            let chunk = *[1usize, 50, usize::MAX, usize::MAX].choose(r).unwrap();
            let buffered = match r.gen_range(0..4) {
                0 => Some(r.gen_range(1..200)),
                1 => Some(len + r.gen_range(0..1000)), // everything stays in the buffer until it is flushed
                _ => None,
            };
            plans.push((SinkPlan { chunk, fail_after: Some((at, kind)), once: r.gen_bool(0.4), ..Default::default() }, buffered));
        }
        for (plan, cap) in plans {
            let log = Arc::new(Mutex::new(SinkLog::default()));
            let sink = Sink { plan: plan.clone(), log: log.clone() };
            let res = match cap {
                None => write_ds_to(&ds.d, sink),
                Some(c) => write_ds_to(&ds.d, io::BufWriter::with_capacity(c, sink)),
            };
            let l = log.lock().unwrap();
            let what = || format!("{plan:?}, buffer {cap:?}, file of {len} bytes; {}", ds.desc);
            let must_fail = l.failed > 0;
            match &res {
                Ok(()) => {
                    if l.data != want {
                        let same = l.data.iter().zip(want).take_while(|(a, b)| a == b).count();
                        rep.violate("incomplete", format!("success was reported, but {} bytes arrived, the first {same} as expected; {}", l.data.len(), what()));
                    } else if must_fail {
                        rep.violate("unreported", format!("success was reported although the output failed; {}", what()));
                    }
                }
                Err(e) if e.starts_with("PANIC") => rep.violate("panic", format!("{e}; {}", what())),
                Err(e) => {
                    if !must_fail {
                        rep.violate("spurious", format!("{e} although the output accepted everything; {}", what()));
                    }
                    if !want.starts_with(&l.data) && !plan.once {
                        rep.violate("wrong_prefix", format!("what arrived before the failure is not the start of the file; {}", what()));
                    }
                }
            }
            rep.inc(if must_fail { "outputs_failing" } else { "outputs_healthy" });
            rep.add("write_calls", l.calls);
            rep.add("interruptions", l.interrupts);
            rep.eval(Some(h(&(want, format!("{plan:?}{cap:?}")))));
        }
        rep.sample(|| json!({"dataset": ds.desc, "bytes": len}));
    });
    // written again, from the same and from re-parsed data, in this process and in others
    let n = ctx.n(2_000, 60_000);
    let per = 40;
    let exe = std::env::current_exe().unwrap();
    let procs = if ctx.thorough { 6 } else { 3 };
    run_cases(ctx, rep, "repro", n.div_ceil(per), |_, blk, rep| {
        let (from, to) = (blk * per, (blk + 1) * per);
        let mut want = vec![];
        for c in from..to {
            let d = case_dataset(ctx, c);
            let a = match write_ds(&d) {
                Ok(a) => a,
                Err(e) => return rep.violate("write", e),
            };
            for (what, b) in [("again", write_ds(&d)), ("reparsed", write_ds(&reparsed(&d)))] {
                if b.as_ref() != Ok(&a) {
                    rep.violate(format!("not_reproducible:{what}"), format!("case {c}: writing the same dataset {what} gives other bytes"));
                }
            }
            want.push(format!("{c} {:016x} {}", h(&a[..]), a.len()));
            rep.eval((!d.feats.is_empty()).then(|| h(&a[..])));
        }
        for _ in 0..procs {
            let o = std::process::Command::new(&exe)
                .args(["emit", "--seed", &ctx.seed.to_string(), "--from", &from.to_string(), "--to", &to.to_string()])
                .output();
            let Ok(o) = o else {
                rep.harness_errors.push("cannot start a second process".into());
                return;
            };
            let got: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
            for (w, g) in want.iter().zip(got.iter().map(Some).chain(std::iter::repeat(None))) {
                if Some(w) != g {
                    rep.violate("not_reproducible:process", format!("another process gives {g:?} instead of {w}; {}", String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()));
                    break;
                }
            }
            rep.add("files_from_other_processes", got.len() as u64);
        }
    });
    // the temporary storage fails: no space, or no place at all
    run_cases(ctx, rep, "storage", ctx.n(16, 400), |r, _, rep| {
        let case = r.gen_range(0..10_000u64);
        let d = case_dataset(ctx, case);
        let Ok(want) = write_ds(&d) else { return };
        let kb = r.gen_range(0..120);
        let dir = std::env::var("VERIF_BUILD").unwrap_or_else(|_| "/tmp".into());
        // temporary storage of its own: nothing may be left in it
        let own = std::path::Path::new(&dir).join(format!("storage-{}-{case}-{kb}", std::process::id()));
        if let Err(e) = std::fs::create_dir_all(&own) {
            rep.harness_errors.push(format!("{own:?}: {e}"));
            return;
        }
        let run = |limit: Option<u64>, tmp: &str, end: &str| {
            let mut c = std::process::Command::new("sh");
            let script = match limit {
                // a write beyond the limit fails with EFBIG
                Some(k) => format!("trap '' XFSZ; ulimit -f {k}; exec \"$0\" \"$@\""),
                None => "exec \"$0\" \"$@\"".to_string(),
            };
            c.args(["-c", &script]).arg(&exe).args(["emit-fat", "--seed", &ctx.seed.to_string(), "--case", &case.to_string()]).env("TMPDIR", tmp).env("FCBMON_END", end);
            c.output().map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string()).unwrap_or_default()
        };
        let own_s = own.to_str().unwrap().to_string();
        let ok = run(None, &own_s, "");
        if !ok.starts_with("ok ") {
            rep.harness_errors.push(format!("emit-fat: {ok}"));
            let _ = std::fs::remove_dir_all(&own);
            return;
        }
        let left = |rep: &mut Rep, how: &str| {
            let names: Vec<String> = std::fs::read_dir(&own).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
            if !names.is_empty() {
                rep.violate("left_behind", format!("case {case}: {names:?} is left in the temporary storage after {how}"));
                for n in names {
                    let _ = std::fs::remove_file(own.join(n));
                }
            }
            rep.inc("temporary_storage_found_empty");
        };
        left(rep, "a write");
        let at = r.gen_range(0..want.len());
        for end in [format!("fail {at}"), "drop".to_string(), "half".to_string()] {
            let got = run(None, &own_s, &end);
            if !got.starts_with("error") && !got.starts_with("dropped") {
                rep.violate("storage", format!("case {case}, {end}: {got:?}"));
            }
            left(rep, &format!("an unfinished write ({end})"));
            rep.eval(Some(h(&(case, &end))));
        }
        for (what, got) in [("file size limit", run(Some(kb), &own_s, "")), ("no temporary directory", run(None, "/nonexistent-fcbmon", ""))] {
            if got != ok && !got.starts_with("error") {
                rep.violate("storage", format!("{what} ({kb} blocks), case {case}: {got:?} instead of {ok:?} or an error"));
            }
            left(rep, what);
            rep.inc(if got == ok { "storage_fault_not_reached" } else { "storage_fault_reported" });
            rep.eval((got != ok).then(|| h(&(case, kb, what))));
        }
        let _ = std::fs::remove_dir_all(&own);
    });
}

/// `emit-fat`: one case repeated often enough to reach the disk; prints "ok <digest>" or "error ..."
pub fn emit_fat(ctx: &Ctx, case: u64) {
    let d = case_dataset(ctx, case);
    let res = guard(|| -> Result<Vec<u8>, String> {
        let mut w = FcbWriter::new(d.header.clone(), Some(d.opts.clone()), Some(d.schema.clone()), d.sem_schema.clone()).map_err(|e| format!("error new: {e}"))?;
        let extra: Vec<Value> = (0..6)
            .map(|i| json!({"type":"CityJSONFeature","id":format!("fat{i}"),"CityObjects":{format!("fat{i}"):{"type":"Building"}},"vertices":(0..400).map(|k| json!([k, i, k])).collect::<Vec<_>>()}))
            .collect();
        let extra: Vec<_> = extra.iter().map(parse_feature).collect();
        // how it ends: as usual, given up before or amid the features, or with an output that fails
        let end = std::env::var("FCBMON_END").unwrap_or_default();
        for (i, f) in d.feats.iter().chain(&extra).enumerate() {
            if end == "half" && i == (d.feats.len() + extra.len()) / 2 {
                return Err("dropped".into());
            }
            w.add_feature(f).map_err(|e| format!("error add: {e}"))?;
        }
        if end == "drop" {
            return Err("dropped".into());
        }
        if let Some(at) = end.strip_prefix("fail ") {
            let log = Arc::new(Mutex::new(SinkLog::default()));
            let plan = SinkPlan { chunk: usize::MAX, fail_after: Some((at.parse().unwrap(), Some(io::ErrorKind::Other))), ..Default::default() };
            w.write(Sink { plan, log }).map_err(|e| format!("error write: {e}"))?;
            return Err("success despite a failing output".into());
        }
        let mut out = vec![];
        w.write(&mut out).map_err(|e| format!("error write: {e}"))?;
        Ok(out)
    });
    match res {
        Ok(Ok(b)) => println!("ok {:016x} {}", h(&b[..]), b.len()),
        Ok(Err(e)) => println!("{e}"),
        Err(p) => println!("panic {} {}", p.loc, p.msg),
    }
}
