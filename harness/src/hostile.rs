//! Corrupt, truncated and hostile files against the checked readers (C10).
use crate::attrq::*;
use crate::equiv::*;
use crate::layout::{parse, Fb, Parsed};
use crate::lib_io::*;
use crate::rep::*;
use fcb_core::deserializer::to_cj_metadata;
use fcb_core::{FcbReader, FixedStringKey, Float, KeyType};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Cursor;
use std::sync::Arc;

// ---- allocation monitor: what the running thread holds, and how much it held at most ----
pub struct Meter;
thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
}
fn note(d: isize) -> bool {
    HELD.try_with(|h| {
        let v = h.get() + d;
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        let lim = LIMIT.try_with(|l| l.replace(isize::MAX)).unwrap_or(isize::MAX);
        if d > 0 && v > lim {
            // nothing can be unwound from here: report and end the process
            crate::rep::fatal("memory:demand", format!("a request of {d} bytes, {v} in all"));
        }
        let _ = LIMIT.try_with(|l| l.set(lim));
        h.set(v);
        true
    })
    .unwrap_or(true)
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
/// runs `f` and tells how many bytes it held at most; far too much ends the process
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = HELD.with(|h| h.get());
    PEAK.with(|p| p.set(base));
    LIMIT.with(|l| l.set(base + (1 << 30)));
    let r = f();
    LIMIT.with(|l| l.set(isize::MAX));
    (r, (PEAK.with(|p| p.get()) - base).max(0) as usize)
}

/// bytes the running thread holds
pub fn held() -> isize {
    HELD.with(|h| h.get())
}

// ---- mutations ----
fn word_val(r: &mut StdRng, old: u32, len: usize) -> u32 {
    match r.gen_range(0..14) {
        0 => 0,
        1 => 1,
        2 => u32::MAX,
        3 => i32::MAX as u32,
        4 => 1 << r.gen_range(0..32),
        5 => old.wrapping_add(1),
        6 => old.wrapping_sub(1),
        7 => old.wrapping_add(r.gen_range(0..64)),
        8 => old ^ (1 << r.gen_range(0..32)),
        9 => r.gen(),
        10 => r.gen_range(0..300),
        11 => len as u32,
        12 => r.gen_range(0..len.max(1) as u32),
        _ => old.wrapping_sub(r.gen_range(0..64)),
    }
}
fn long_val(r: &mut StdRng, old: u64, len: usize) -> u64 {
    match r.gen_range(0..10) {
        0 => u64::MAX,
        1 => 1 << r.gen_range(0..64),
        2 => (1 << 63) | r.gen_range(0..len.max(1) as u64),
        3 => (1 << 63) | word_val(r, old as u32, len) as u64,
        4 => old ^ (1 << r.gen_range(0..64)),
        5 => u64::MAX - r.gen_range(0..1000),
        6 => i64::MAX as u64 - r.gen_range(0..3),
        _ => word_val(r, old as u32, len) as u64,
    }
}
fn put(b: &mut [u8], at: usize, v: &[u8]) {
    if at + v.len() <= b.len() {
        b[at..at + v.len()].copy_from_slice(v);
    }
}

/// positions of the scalars which govern how the rest of the file is interpreted: (position, width, what)
fn controls(b: &[u8], p: &Parsed) -> Vec<(usize, usize, &'static str)> {
    let f = Fb(b);
    let mut v = vec![(0, 4, "magic"), (8, 4, "header_size")];
    let Ok(t) = f.deref(12) else { return v };
    for (id, w, n) in [(4, 8, "features_count"), (5, 2, "node_size")] {
        if let Ok(Some(q)) = f.field(t, id) {
            v.push((q, w, n));
        }
    }
    if let Ok(Some((q, n))) = f.vector(t, 6) {
        for i in 0..n.min(500) {
            v.extend([(q + 16 * i, 2, "attr_column"), (q + 16 * i + 4, 4, "attr_length"), (q + 16 * i + 8, 2, "attr_branching"), (q + 16 * i + 12, 4, "attr_unique")]);
        }
    }
    if let Ok(Some((q, n))) = f.vector(t, 2) {
        for i in 0..n.min(500) {
            if let Ok(c) = f.deref(q + 4 * i) {
                for (id, w, what) in [(0, 2, "column_index"), (2, 1, "column_type")] {
                    if let Ok(Some(x)) = f.field(c, id) {
                        v.push((x, w, what));
                    }
                }
            }
        }
    }
    for x in &p.feats {
        v.push((p.feats_begin + x.0, 4, "feature_size"));
    }
    v
}

/// one mutation; the name of what was done
fn mutate(r: &mut StdRng, b: &mut Vec<u8>, p: &Parsed, other: &[u8], po: &Parsed) -> &'static str {
    let len = b.len();
    if len < 16 {
        b.push(r.gen());
        return "grow";
    }
    let set = |r: &mut StdRng, b: &mut Vec<u8>, at: usize, w: usize| {
        if at + w > b.len() {
            return;
        }
        let mut old = [0u8; 8];
        old[..w].copy_from_slice(&b[at..at + w]);
        let old = u64::from_le_bytes(old);
        let v = if w == 8 { long_val(r, old, b.len()) } else { word_val(r, old as u32, b.len()) as u64 };
        let v = v.to_le_bytes();
        put(b, at, &v[..w]);
    };
    match r.gen_range(0..20) {
        0 => {
            let n = r.gen_range(0..len);
            b.truncate(n);
            "truncate"
        }
        1 => {
            let at = r.gen_range(0..len);
            b[at] ^= 1 << r.gen_range(0..8);
            "bit_anywhere"
        }
        2..=6 => {
            let c = controls(b, p);
            let (at, w, what) = *c.choose(r).unwrap();
            set(r, b, at, w);
            what
        }
        7..=9 if p.rtree.1 > 0 => {
            let i = r.gen_range(0..p.rtree.1 / 40);
            let at = p.rtree.0 + 40 * i;
            if r.gen_bool(0.7) {
                set(r, b, at + 32, 8);
                "rtree_offset"
            } else {
                let v = *[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -1e300, 1e300].choose(r).unwrap();
                put(b, at + 8 * r.gen_range(0..4), &v.to_le_bytes());
                "rtree_box"
            }
        }
        10..=12 if !p.attrs.is_empty() => {
            let a = p.attrs.choose(r).unwrap();
            if a.len < 8 {
                return "nothing";
            }
            let at = a.begin + r.gen_range(0..a.len - 7);
            let w = *[1usize, 4, 8].choose(r).unwrap();
            if r.gen_bool(0.3) {
                // all offsets of the index at once
                let v = long_val(r, 0, len).to_le_bytes();
                let mut q = at;
                while q + 8 <= a.begin + a.len {
                    put(b, q, &v);
                    q += 12;
                }
                return "attr_index_sweep";
            }
            set(r, b, at, w);
            "attr_index_bytes"
        }
        13 | 14 => {
            // a word of the header
            let n = p.rtree.0.saturating_sub(12);
            if n < 8 {
                return "nothing";
            }
            let at = 12 + r.gen_range(0..n - 7) / 4 * 4;
            let w = *[1, 2, 4, 4, 8].choose(r).unwrap();
            set(r, b, at, w);
            "header_word"
        }
        15..=17 if !p.feats.is_empty() => {
            // words of one feature
            let f = p.feats.choose(r).unwrap();
            for _ in 0..r.gen_range(1..6) {
                let at = p.feats_begin + f.0 + 4 + r.gen_range(0..f.1.max(16) - 8) / 4 * 4;
                let w = *[1usize, 4, 4, 4, 8].choose(r).unwrap();
                set(r, b, at, w);
            }
            "feature_words"
        }
        18 => {
            // header of one file, rest of another; or features of another
            let cut = if r.gen() { p.rtree.0 } else { p.feats_begin };
            let ocut = if r.gen() { po.rtree.0 } else { po.feats_begin };
            b.truncate(cut);
            b.extend_from_slice(&other[ocut.min(other.len())..]);
            "splice"
        }
        _ => {
            let (a, n) = (r.gen_range(0..len), r.gen_range(1..40));
            match r.gen_range(0..4) {
                0 => {
                    let e = (a + n).min(len);
                    b.drain(a..e);
                    "cut_out"
                }
                1 => {
                    let x: Vec<u8> = (0..n).map(|_| r.gen()).collect();
                    b.splice(a..a, x);
                    "insert"
                }
                2 => {
                    let e = (a + n).min(len);
                    let v = *[0u8, 0xff, 0x7f, 0x80].choose(r).unwrap();
                    b[a..e].fill(v);
                    "fill"
                }
                _ => {
                    let e = (a + n).min(len);
                    let x = b[a..e].to_vec();
                    let to = r.gen_range(0..len);
                    put(b, to, &x);
                    "copy"
                }
            }
        }
    }
}

/// queries for a file of which nothing is known to be true
fn sels_for(r: &mut StdRng, given: &[Sel], p: &Parsed) -> Vec<Sel> {
    let mut v = vec![Sel::All, Sel::Bbox(-1e300, -1e300, 1e300, 1e300)];
    v.push(match r.gen_range(0..3) {
        0 => Sel::Nearest(0.0, 0.0),
        1 => Sel::Point(0.0, 0.0),
        _ => Sel::Bbox(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::INFINITY),
    });
    if let Some(s) = given.choose(r) {
        v.push(s.clone());
    }
    for s in given {
        if matches!(s, Sel::Attr(_)) {
            v.push(s.clone());
        }
    }
    if let Some((_, name, ty)) = p.columns.choose(r) {
        let kt = any_key(r, *ty);
        v.push(Sel::Attr(vec![(name.clone(), *OPS.choose(r).unwrap(), kt)]));
    }
    if p.columns.len() > 1 && r.gen_bool(0.2) {
        // a key of the wrong type
        let (_, name, _) = p.columns.choose(r).unwrap();
        let t = r.gen_range(0..15);
        v.push(Sel::Attr(vec![(name.clone(), *OPS.choose(r).unwrap(), any_key(r, t))]));
    }
    v
}
fn any_key(r: &mut StdRng, ty: u8) -> KeyType {
    match ty {
        0 => KeyType::Int8(r.gen()),
        1 => KeyType::UInt8(r.gen()),
        2 => KeyType::Bool(r.gen()),
        3 => KeyType::Int16(r.gen()),
        4 => KeyType::UInt16(r.gen()),
        5 => KeyType::Int32(r.gen()),
        6 => KeyType::UInt32(r.gen()),
        7 => KeyType::Int64(r.gen()),
        8 => KeyType::UInt64(r.gen()),
        9 => KeyType::Float32(Float(r.gen())),
        10 => KeyType::Float64(Float(r.gen())),
        13 => KeyType::DateTime(chrono::DateTime::from_timestamp(r.gen_range(0..2_000_000_000), 0).unwrap()),
        _ => KeyType::StringKey50(FixedStringKey::from_str("abc")),
    }
}

struct Limits {
    mem: usize,
    ops: u64,
}

/// drives every reader over the bytes and judges how that ends
fn drive(rep: &mut Rep, bytes: &Arc<Vec<u8>>, sels: &[Sel], how: &str, http: bool) {
    let len = bytes.len();
    // memory in proportion to the file, time likewise
    let lim = Limits { mem: (48 << 20) + 400 * len, ops: 200_000 + 40 * len as u64 };
    let mut fine = false;
    let ((), peak) = metered(|| {
        let r = guard(|| {
            if let Ok(rd) = FcbReader::open(Cursor::new(&bytes[..])) {
                let h = rd.header();
                let _ = to_cj_metadata(&h).map(|m| m.version.len());
                fine = true;
            }
        });
        if let Err(p) = r {
            rep.violate(format!("panic:header:{}", p.file()), format!("{} at {} when opening; {how}", p.msg, p.loc));
        }
    });
    if peak > lim.mem {
        rep.violate("memory:open", format!("{peak} bytes to open a file of {len}; {how}"));
    }
    rep.inc(if fine { "files_opened" } else { "files_refused" });
    let mut delivered = 0;
    for sel in sels {
        for mode in ["seek", "seq", "http"] {
            if mode == "http" && !http {
                continue;
            }
            let fr = || {
                let mut f = FaultReader::new(bytes.clone());
                f.op_limit = lim.ops;
                let st = f.stats.clone();
                (f, st)
            };
            let (f, st) = fr();
            let m = MockHttp::new(bytes.clone());
            let (d, peak) = metered(|| match mode {
                "seek" => drain_seek(f, sel),
                "seq" => drain_seq(f, sel),
                _ => drain_http(&m, sel),
            });
            let ctx = || format!("{mode}, {}, file of {len} bytes, {how}", sel.show());
            if let Some(p) = &d.panic {
                let file = p.split(": ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
                rep.violate(format!("panic:{file}"), format!("panic {p}; {}", ctx()));
            }
            if let Some(e) = &d.current {
                rep.violate(format!("unverified:{mode}"), format!("the feature which is the current one after the end does not verify: {e}; {}", ctx()));
            }
            if st.lock().unwrap().limit_hit || d.err.as_deref().is_some_and(|e| e.contains("endless iteration")) {
                rep.violate("endless", format!("more than {} operations; {}", lim.ops, ctx()));
            }
            if m.log.lock().unwrap().len() as u64 > lim.ops {
                rep.violate("endless", format!("{} requests; {}", m.log.lock().unwrap().len(), ctx()));
            }
            // what was delivered is held as well
            if peak > lim.mem {
                rep.violate(format!("memory:{mode}"), format!("{peak} bytes; {}", ctx()));
            }
            rep.max("max_bytes_held", peak as u64);
            delivered += d.feats.len() as u64;
            rep.inc(&format!("{mode}_{}", if d.ok() { "answered" } else { "error" }));
        }
    }
    rep.add("features_delivered", delivered);
}

fn hostile_case(r: &mut StdRng, rep: &mut Rep, max_n: usize, http: bool) {
    let (a, b) = (rich_any(r, max_n, 3), rich(r, 4, 0));
    let (Ok(a), Ok(b)) = (a, b) else { return };
    let (Ok(p), Ok(po)) = (parse(&a.bytes), parse(&b.bytes)) else { return };
    let corpus = if rep.case < 400 { std::env::var("FCBMON_CORPUS").ok().filter(|d| !d.is_empty()) } else { None };
    for k in 0..6 {
        let mut x = a.bytes.to_vec();
        let mut how = vec![];
        for _ in 0..*[1, 1, 1, 2, 3, 6].choose(r).unwrap() {
            how.push(mutate(r, &mut x, &p, &b.bytes, &po));
        }
        for k in &how {
            rep.inc(&format!("mutation_{k}"));
        }
        let how = format!("{how:?}");
        let sels = sels_for(r, &a.sels, &p);
        let x = Arc::new(x);
        if let (Some(dir), true) = (&corpus, x.len() < 3000 && x.len() > 200) {
            // small ones for the interpreter
            std::fs::write(format!("{dir}/{:05}-{k}.fcb", rep.case), &x[..]).unwrap();
        }
        drive(rep, &x, &sels, &how, http);
        rep.eval((*x != *a.bytes).then(|| h(&x[..])));
    }
    rep.sample(|| json!({"dataset": a.desc, "bytes": a.bytes.len()}));
}

pub fn c10(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "mutated", ctx.n(5_000, 200_000), |r, _, rep| hostile_case(r, rep, 40, true));
    run_cases(ctx, rep, "garbage", ctx.n(800, 20_000), |r, _, rep| {
        let n: usize = r.gen_range(0..400);
        let mut b: Vec<u8> = (0..n).map(|_| if r.gen_bool(0.5) { 0 } else { r.gen() }).collect();
        put(&mut b, 0, b"fcb\x01fcb\0");
        if r.gen() {
            put(&mut b, 8, &(n.saturating_sub(12) as u32).to_le_bytes());
        }
        let b = Arc::new(b);
        drive(rep, &b, &[Sel::All, Sel::Bbox(0.0, 0.0, 1.0, 1.0), Sel::Attr(vec![("a".into(), OPS[0], KeyType::Int32(1))])], "garbage", true);
        rep.eval(Some(h(&b[..])));
    });
}

/// files saved by the above once more, for the interpreter
pub fn c10_small(ctx: &Ctx, rep: &mut Rep) {
    let dir = std::env::var("FCBMON_CORPUS").unwrap_or_default();
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let shard = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<usize>().ok());
    let (i, n) = (shard("FCBMON_SHARD").unwrap_or(0), shard("FCBMON_SHARDS").unwrap_or(1));
    let files: Vec<_> = files.into_iter().skip(i).step_by(n).collect();
    let ctx = Ctx { threads: 1, ..ctx.clone() };
    run_cases(&ctx, rep, "interpreted", files.len().min(ctx.n(2, 24) as usize) as u64, |r, c, rep| {
        let b = Arc::new(std::fs::read(&files[c as usize]).unwrap());
        let mut sels = vec![Sel::All, Sel::Bbox(-1e300, -1e300, 1e300, 1e300), Sel::Nearest(0.0, 0.0)];
        if let Ok(p) = parse(&b) {
            for (_, name, ty) in p.columns.iter().take(2) {
                sels.push(Sel::Attr(vec![(name.clone(), *OPS.choose(r).unwrap(), any_key(r, *ty))]));
            }
        }
        drive(rep, &b, &sels, &format!("{:?}", files[c as usize].file_name().unwrap()), false);
        rep.eval(Some(h(&b[..])));
    });
}
