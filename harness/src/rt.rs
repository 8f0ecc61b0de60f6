//! Round-trip monitors (C01, C02, C03, C18).
use crate::gen::*;
use crate::lib_io::*;
use crate::rep::*;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Cursor;

/// compares multiset of features by id; returns first difference
pub fn compare_features(rep: &mut Rep, want: &[Value], got: &[Value], tag: &str) {
    let (mut want, mut got) = (want.to_vec(), got.to_vec());
    want.iter_mut().chain(&mut got).for_each(expand_nulls);
    let (want, got) = (&want, &got);
    let mut w: BTreeMap<String, Vec<&Value>> = BTreeMap::new();
    for f in want {
        w.entry(f["id"].as_str().unwrap_or("").into()).or_default().push(f);
    }
    for g in got {
        let id = g["id"].as_str().unwrap_or("").to_string();
        match w.get_mut(&id) {
            Some(v) if !v.is_empty() => {
                // several features may share an id: match any equal one
                if let Some(p) = v.iter().position(|x| diff(x, g).is_none()) {
                    v.remove(p);
                } else {
                    let x = v.remove(0);
                    let (p, m) = diff(x, g).unwrap();
                    rep.violate(format!("{tag}:{}", generalise(&p)), format!("feature {id:?} differs at {p}: {m}"));
                }
            }
            _ => rep.violate(format!("{tag}:extra"), format!("feature {id:?} read but not written (or twice)")),
        }
    }
    for (id, v) in w {
        if !v.is_empty() {
            rep.violate(format!("{tag}:lost"), format!("feature {id:?} lost"));
        }
    }
}

/// path with ids and indexes removed
pub fn generalise(p: &str) -> String {
    let mut out = Vec::new();
    let parts: Vec<&str> = p.split('/').collect();
    let mut skip_next = false;
    for s in parts {
        let base = s.split('[').next().unwrap_or("");
        if skip_next {
            out.push("*".to_string());
            skip_next = false;
        } else {
            out.push(base.to_string());
        }
        if base == "CityObjects" || base == "attributes" || base == "material" || base == "texture" {
            skip_next = true;
        }
    }
    out.join("/")
}

pub fn c01(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "random", ctx.n(120_000, 800_000), |r, c, rep| {
        let mut cfg = DsCfg { n: r.gen_range(0..12), ..Default::default() };
        cfg.geom.semantics = true;
        cfg.geom.maxlen = r.gen_range(1..4);
        cfg.geom.null_p = *rand::seq::SliceRandom::choose(&[0.0, 0.2][..], r).unwrap();
        cfg.coord = *rand::seq::SliceRandom::choose(&[10i64, 1_000_000, i32::MAX as i64][..], r).unwrap();
        cfg.write_index = r.gen();
        cfg.ext_types = true;
        let d = dataset(r, &cfg);
        roundtrip(&d, rep, c, "rt");
    });
    scale_stage(ctx, rep, false, ctx.n(150, 3000));
    // many features
    run_cases(ctx, rep, "many", ctx.n(8, 60), |r, c, rep| {
        let n = *rand::seq::SliceRandom::choose(&[300usize, 4096, 4113, 32_769, 65_537, 70_000][..], r).unwrap();
        let mut cfg = DsCfg { n, max_objs: 2, max_geoms: 1, max_verts: 3, ..Default::default() };
        cfg.geom.types = vec!["MultiPoint"];
        cfg.write_index = r.gen();
        let d = dataset(r, &cfg);
        rep.max("max_features", n as u64);
        roundtrip(&d, rep, c, "many");
    });
}

/// A boundary array in which the level `long` (1 = the list of indices) has `len` members and the others few.
fn big_nest(r: &mut rand::rngs::StdRng, depth: usize, long: usize, len: usize, nv: u32) -> Value {
    let n = if depth == long { len } else { r.gen_range(1..3) };
    if depth == 1 {
        // indices around the powers of two which narrower integers would wrap at
        Value::Array((0..n).map(|_| json!(match r.gen_range(0..4) {
            0 => nv - 1,
            1 => nv.saturating_sub(r.gen_range(1..300)).min(nv - 1),
            2 => [127u32, 128, 255, 256, 32767, 32768, 65535, 65536][r.gen_range(0..8)].min(nv - 1),
            _ => r.gen_range(0..nv),
        })).collect())
    } else {
        Value::Array((0..n).map(|_| big_nest(r, depth - 1, long, len, nv)).collect())
    }
}
const LENS: &[usize] = &[127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70_000];
/// features that are large in one respect
fn big_feature(r: &mut rand::rngs::StdRng, app: bool) -> (Value, &'static str, usize) {
    use rand::seq::SliceRandom;
    let len = *LENS.choose(r).unwrap();
    let kind = *["vertices", "level", "level", "surfaces", "objects", "geometries", "material", "texture", "uv"][..if app { 9 } else { 6 }].choose(r).unwrap();
    let nv: u32 = if kind == "vertices" || r.gen_bool(0.2) { len as u32 } else { r.gen_range(1..300) };
    let verts: Vec<Value> = (0..nv).map(|_| json!([r.gen_range(-1000..1000), r.gen_range(-1000..1000), r.gen_range(-1000..1000)])).collect();
    let mut app_json = Value::Null;
    let mut objs = serde_json::Map::new();
    let t = *ALL_GEOM.choose(r).unwrap();
    let depth = depth_of(t);
    let geom = |r: &mut rand::rngs::StdRng, long: usize, len: usize, ns: u32| -> Value {
        let t = if kind == "level" { t } else { *["MultiSurface", "CompositeSurface", "Solid", "MultiSolid"].choose(r).unwrap() };
        let b = big_nest(r, depth_of(t), long.min(depth_of(t)), len, nv);
        let mut g = json!({"type": t, "lod": "2", "boundaries": b});
        if ns > 0 {
            let sv = shaped(&b, sem_depth(t), &mut || if r.gen_bool(0.1) { Value::Null } else { json!(if r.gen() { ns - 1 } else { r.gen_range(0..ns) }) });
            let surfaces: Vec<Value> = (0..ns).map(|i| {
                let mut s = json!({"type": SEM_TYPES[(i as usize * 7) % SEM_TYPES.len()]});
                if i > 0 && i % 3 == 0 { s["parent"] = json!(i - 1); }
                if i % 5 == 0 && i + 1 < ns { s["children"] = json!([i + 1, ns - 1]); }
                s
            }).collect();
            g["semantics"] = json!({"surfaces": surfaces, "values": sv});
        }
        if app && depth_of(t) >= 3 {
            let nm = if kind == "material" { len as u32 } else { 3 };
            let nt = if kind == "texture" { len as u32 } else { 3 };
            let nuv = if kind == "uv" { len as u32 } else { 10 };
            let mv = shaped(&b, sem_depth(t), &mut || if r.gen_bool(0.1) { Value::Null } else { json!(if r.gen() { nm - 1 } else { r.gen_range(0..nm) }) });
            g["material"] = json!({"th": {"values": mv}, "one": {"value": nm - 1}});
            g["texture"] = json!({"tex": {"values": tex_shape(&b, depth_of(t), r, 0.1, nt, nuv)}});
        }
        g
    };
    let id = "big".to_string();
    match kind {
        "vertices" => {
            objs.insert(id.clone(), json!({"type": "Building", "geometry": [geom(r, 1, 60, 2), geom(r, 1, 5, 0)]}));
        }
        "level" => {
            let long = r.gen_range(1..=depth);
            objs.insert(id.clone(), json!({"type": "Building", "geometry": [geom(r, long, len, if depth > 2 { 3 } else { 0 }), geom(r, 1, 2, 0)]}));
        }
        "surfaces" => {
            objs.insert(id.clone(), json!({"type": "Building", "geometry": [geom(r, 3, 40, len as u32), geom(r, 2, 3, 2)]}));
        }
        "objects" => {
            let n = len.min(33_000);
            let kids: Vec<String> = (1..n).map(|i| format!("o{i}")).collect();
            for (i, k) in kids.iter().enumerate() {
                objs.insert(k.clone(), if i % 97 == 0 { json!({"type": "BuildingPart", "parents": [id], "geometry": [geom(r, 1, 2, 1)]}) } else { json!({"type": "BuildingPart", "parents": [id]}) });
            }
            objs.insert(id.clone(), json!({"type": "Building", "children": kids}));
        }
        "geometries" => {
            let n = len.min(1100);
            objs.insert(id.clone(), json!({"type": "Building", "geometry": (0..n).map(|_| geom(r, 1, 2, 1)).collect::<Vec<_>>()}));
        }
        _ => {
            objs.insert(id.clone(), json!({"type": "Building", "geometry": [geom(r, 3, 40, 2), geom(r, 1, 5, 0)]}));
        }
    }
    if app {
        app_json = appearance(r, if kind == "material" { len as u32 } else { 3 }, if kind == "texture" { len as u32 } else { 3 }, if kind == "uv" { len as u32 } else { 10 });
    }
    let mut f = json!({"type": "CityJSONFeature", "id": id, "CityObjects": objs, "vertices": verts});
    if app {
        f["appearance"] = app_json;
    }
    (f, kind, len)
}
/// datasets which are large in one respect: the widths of the counters and offsets in the format
fn scale_stage(ctx: &Ctx, rep: &mut Rep, app: bool, n: u64) {
    run_cases(ctx, rep, "scale", n, |r, c, rep| {
        let cfg = DsCfg { n: r.gen_range(0..3), write_index: r.gen(), ..Default::default() };
        let mut d = dataset(r, &cfg);
        let (f, kind, len) = big_feature(r, app);
        let at = r.gen_range(0..=d.feats_json.len());
        d.feats_json.insert(at, f);
        d.feats = d.feats_json.iter().map(parse_feature).collect();
        rep.inc(&format!("scale_{kind}"));
        rep.max(&format!("max_scale_{kind}"), len as u64);
        roundtrip(&d, rep, c, "scale");
    });
}

pub fn roundtrip(d: &Dataset, rep: &mut Rep, c: u64, tag: &str) {
    let bytes = match write_ds(d) {
        Ok(b) => b,
        Err(e) => {
            rep.violate(format!("{tag}:write"), e);
            return;
        }
    };
    let (mode, got) = match c % 4 {
        1 => ("seq", drain_seq(&bytes[..], &Sel::All)),
        2 => ("http", drain_http(&MockHttp::new(std::sync::Arc::new(bytes.clone())), &Sel::All)),
        _ => ("seek", drain_seek(Cursor::new(&bytes), &Sel::All)),
    };
    rep.inc(&format!("read_{mode}"));
    if !got.ok() {
        rep.violate(format!("{tag}:read"), format!("{mode}: {}", got.problem()));
        return;
    }
    let want: Vec<Value> = d.feats.iter().map(canon).collect();
    let gotv: Vec<Value> = got.feats.iter().map(canon).collect();
    compare_features(rep, &want, &gotv, tag);
    let mut sh = BTreeMap::new();
    for f in &want {
        shape(f, &mut sh);
    }
    for (k, v) in sh {
        rep.add(&k, v);
    }
    rep.add("features", want.len() as u64);
    rep.add("bytes_written", bytes.len() as u64);
    rep.eval(if want.is_empty() { None } else { Some(h(&bytes)) });
    rep.sample(|| json!({"case": c, "feature": want.first()}));
}

pub fn c18(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "appearance", ctx.n(120_000, 800_000), |r, c, rep| {
        let mut cfg = DsCfg { n: r.gen_range(1..8), ..Default::default() };
        cfg.geom.semantics = r.gen();
        cfg.geom.maxlen = r.gen_range(1..4);
        cfg.geom.null_p = *rand::seq::SliceRandom::choose(&[0.0, 0.2][..], r).unwrap();
        cfg.geom.materials = true;
        cfg.geom.textures = true;
        cfg.feature_appearance = true;
        cfg.geom.n_templates = *rand::seq::SliceRandom::choose(&[0u32, 0, 3][..], r).unwrap();
        if r.gen_bool(0.2) {
            cfg.geom.sem_attrs = random_attrs(r, &[K::Int, K::Str, K::Double, K::Bool]);
        }
        let d = dataset(r, &cfg);
        roundtrip(&d, rep, c, "app");
    });
    scale_stage(ctx, rep, true, ctx.n(150, 3000));
}
pub const ATTR_NAMES: &[&str] = &["a", "height", "", "naïve", "x y", "type2", "B", "语言", "zz", "area_m2", "n", "q", "w", "e", "long_attribute_name_that_is_fairly_long_indeed"];
pub fn random_attrs(r: &mut rand::rngs::StdRng, kinds: &[K]) -> Vec<(String, K)> {
    let n = r.gen_range(1..10);
    let mut names: Vec<&str> = ATTR_NAMES.to_vec();
    rand::seq::SliceRandom::shuffle(&mut names[..], r);
    names[..n].iter().map(|n| (n.to_string(), *rand::seq::SliceRandom::choose(kinds, r).unwrap())).collect()
}
pub fn c03(ctx: &Ctx, rep: &mut Rep) {
    run_cases(ctx, rep, "attrs", ctx.n(120_000, 800_000), |r, c, rep| {
        let mut cfg = DsCfg { n: r.gen_range(1..8), ..Default::default() };
        let kinds = [K::Bool, K::ULong, K::Long, K::Double, K::Str, K::Date, K::Json, K::Int, K::UInt, K::Float, K::Short, K::UShort, K::Byte, K::UByte, K::Bin];
        cfg.attrs = random_attrs(r, &kinds);
        cfg.geom.semantics = true;
        cfg.geom.maxlen = 2;
        cfg.max_geoms = 1;
        cfg.geom.types = vec!["MultiSurface", "Solid"];
        cfg.geom.sem_attrs = random_attrs(r, &kinds);
        cfg.attr_p = *rand::seq::SliceRandom::choose(&[0.1, 0.5, 1.0][..], r).unwrap();
        let d = dataset(r, &cfg);
        roundtrip(&d, rep, c, "attr");
    });
    // the schema gathered from the values by the library, values of several kinds under one name
    run_cases(ctx, rep, "inferred", ctx.n(30_000, 400_000), |r, c, rep| {
        use crate::cli::{attr_objects, float_names, numerically, stabilise, without_nulls};
        use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
        use rand::seq::SliceRandom;
        let kinds = [K::Bool, K::ULong, K::Long, K::Double, K::Str, K::Date, K::Json];
        let mut cfg = DsCfg { n: r.gen_range(1..7), max_geoms: 1, ..Default::default() };
        cfg.geom.maxlen = 2;
        cfg.geom.semantics = true;
        cfg.geom.types = vec!["MultiSurface", "Solid"];
        cfg.geom.n_templates = *[0u32, 2].choose(r).unwrap();
        let mut d = dataset(r, &cfg);
        let few: Vec<(String, Vec<K>)> = random_attrs(r, &kinds).into_iter().map(|(n, k)| (n, std::iter::once(k).chain((0..r.gen_range(0..3)).map(|_| *kinds.choose(r).unwrap())).collect())).collect();
        let p = *[0.1, 0.5, 1.0].choose(r).unwrap();
        let mut feats = d.feats_json.clone();
        for f in feats.iter_mut().chain([&mut d.header_json]) {
            if let Some(o) = f.get_mut("CityObjects").and_then(|o| o.as_object_mut()) {
                o.values_mut().for_each(|o| o["attributes"] = json!({}));
            }
            let mut o = vec![];
            attr_objects(f, &mut o);
            for (sem, m) in o {
                for (n, k) in &few {
                    if r.gen_bool(p) && !(sem && ["type", "parent", "children"].contains(&n.as_str())) {
                        let k = *k.choose(r).unwrap();
                        let v = if r.gen_bool(0.1) { Value::Null } else { value_of(r, k) };
                        m.insert(n.clone(), v);
                    }
                }
            }
        }
        feats.iter_mut().chain([&mut d.header_json]).for_each(stabilise);
        d.feats_json = feats;
        d.feats = d.feats_json.iter().map(parse_feature).collect();
        d.header = parse_header(&d.header_json);
        // objects bring columns of their own when the shared ones do not fit; surfaces cannot
        let (mut a, mut s) = (AttributeSchema::new(), AttributeSchema::new());
        for pass in 0..2 {
            for o in d.feats.iter().flat_map(|f| f.city_objects.values()) {
                if pass == 0 && r.gen_bool(0.8) {
                    o.attributes.iter().for_each(|x| a.add_attributes(x));
                }
                for g in o.geometry.iter().flatten() {
                    g.semantics.iter().flat_map(|x| &x.surfaces).filter_map(|x| x.other.as_ref()).for_each(|x| s.add_attributes(x));
                }
            }
            for g in d.header.geometry_templates.iter().flat_map(|t| &t.templates) {
                g.semantics.iter().flat_map(|x| &x.surfaces).filter_map(|x| x.other.as_ref()).for_each(|x| s.add_attributes(x));
            }
        }
        let idx: Vec<String> = a.keys().cloned().collect();
        if !idx.is_empty() && r.gen_bool(0.3) {
            d.opts.attribute_indices = Some(idx.choose_multiple(r, 3).map(|n| (n.clone(), [None, Some(2), Some(16)].choose(r).copied().unwrap())).collect());
        }
        for (what, schema) in [("object", &a), ("surface", &s)] {
            let mut i: Vec<u16> = schema.values().map(|x| x.0).collect();
            i.sort();
            if i.iter().enumerate().any(|(n, i)| n != *i as usize) {
                rep.violate("inferred:column_numbers", format!("{what}: {schema:?}"));
            }
        }
        (d.schema, d.sem_schema) = (a, (!s.is_empty()).then_some(s));
        let bytes = match write_ds(&d) {
            Ok(b) => b,
            Err(e) => return rep.violate("inferred:write", e),
        };
        let got = if c % 2 == 0 { drain_seek(Cursor::new(&bytes), &Sel::All) } else { drain_seq(&bytes[..], &Sel::All) };
        if !got.ok() {
            return rep.violate("inferred:read", got.problem());
        }
        let head = guard(|| fcb_core::FcbReader::open(&bytes[..]).ok().and_then(|r| fcb_core::deserializer::to_cj_metadata(&r.header()).ok()).map(|h| header_view(&h)));
        let Ok(Some(mut got_head)) = head else { return rep.violate("inferred:header", format!("{head:?}")) };
        let mut want_head = header_view(&d.header);
        let mut want: Vec<Value> = d.feats.iter().map(canon).collect();
        let mut gotv: Vec<Value> = got.feats.iter().map(canon).collect();
        let mut fl = float_names(&want);
        fl.extend(float_names(std::slice::from_ref(&want_head)));
        let mut values = 0;
        for f in want.iter_mut().chain(gotv.iter_mut()).chain([&mut want_head, &mut got_head]) {
            numerically(f, &fl);
            without_nulls(f);
            let mut o = vec![];
            attr_objects(f, &mut o);
            values += o.iter().map(|o| o.1.len()).sum::<usize>();
        }
        compare_features(rep, &want, &gotv, "inferred");
        if let Some((p, m)) = diff(&want_head, &got_head) {
            rep.violate(format!("inferred:header:{}", generalise(&p)), m);
        }
        rep.add("inferred_values", values as u64 / 2);
        rep.add("inferred_columns", (d.schema.len() + d.sem_schema.as_ref().map_or(0, |s| s.len())) as u64);
        rep.eval((values > 0).then(|| h(&bytes)));
    });
    // many columns, long values, many objects and surfaces with attributes
    run_cases(ctx, rep, "scale", ctx.n(160, 3000), |r, c, rep| {
        use rand::seq::SliceRandom;
        let kinds = [K::Bool, K::ULong, K::Long, K::Double, K::Str, K::Date, K::Json, K::Int, K::UInt, K::Float, K::Short, K::UShort, K::Byte, K::UByte, K::Bin];
        let kind = *["columns", "long", "long", "surfaces"].choose(r).unwrap();
        let mut cfg = DsCfg { n: r.gen_range(1..4), max_geoms: 1, ..Default::default() };
        cfg.geom.types = vec!["MultiSurface", "Solid"];
        cfg.geom.semantics = true;
        cfg.geom.maxlen = 2;
        let nc = if kind == "columns" { *[127usize, 128, 129, 255, 256, 257, 600, 5000].choose(r).unwrap() } else { r.gen_range(2..6) };
        cfg.attrs = (0..nc).map(|i| (format!("c{i}"), *kinds.choose(r).unwrap())).collect();
        cfg.attr_p = if nc > 1000 { 0.05 } else { 0.7 };
        if r.gen() {
            cfg.geom.sem_attrs = (0..nc.min(600)).map(|i| (format!("s{i}"), *kinds.choose(r).unwrap())).collect();
        }
        let mut d = dataset(r, &cfg);
        if kind != "columns" {
            let len = *LENS.choose(r).unwrap();
            let strs: Vec<(String, K)> = cfg.attrs.iter().filter(|(_, k)| matches!(k, K::Str | K::Bin | K::Json)).cloned().collect();
            let unit = *["x", "é", "語"].choose(r).unwrap();
            let ci = r.gen_range(0..4);
            for f in &mut d.feats_json {
                for o in f["CityObjects"].as_object_mut().unwrap().values_mut() {
                    for (n, k) in &strs {
                        if o.get("attributes").is_some() && r.gen_bool(0.7) {
                            let s = unit.repeat(len / unit.len() + (len % unit.len() + ci) % 3);
                            o["attributes"][n] = if *k == K::Json { json!([s, {"k": s}]) } else { json!(s) };
                        }
                    }
                }
            }
            if kind == "surfaces" && !cfg.geom.sem_attrs.is_empty() {
                let n = len.min(3000);
                let name = cfg.geom.sem_attrs[0].clone();
                let surfaces: Vec<Value> = (0..n).map(|i| {
                    let mut s = json!({"type": "WallSurface"});
                    if i % 3 != 0 {
                        s[&name.0] = value_of(r, name.1);
                    }
                    s
                }).collect();
                let f = &mut d.feats_json[0];
                f["CityObjects"] = json!({"o": {"type": "Building", "geometry": [{"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 0, 0]]],
                    "semantics": {"surfaces": surfaces, "values": [n - 1]}}]}});
            }
            rep.max("max_value_length", len as u64);
        }
        rep.max("max_columns", nc as u64);
        rep.inc(&format!("scale_{kind}"));
        d.feats = d.feats_json.iter().map(parse_feature).collect();
        roundtrip(&d, rep, c, "scale");
    });
}

/// exploratory probes: fixed inputs
pub fn probe(rep: &mut Rep) {
    let mk = |co: Value, verts: Value| -> Value { json!({"type":"CityJSONFeature","id":"a","CityObjects":co,"vertices":verts}) };
    let cases: Vec<(&str, Value)> = vec![
        ("geom_empty_list", mk(json!({"a":{"type":"Building","geometry":[]}}), json!([[0,0,0]]))),
        ("children_empty", mk(json!({"a":{"type":"Building","children":[],"parents":[]}}), json!([[0,0,0]]))),
        ("no_vertices", mk(json!({"a":{"type":"Building"}}), json!([]))),
        ("no_objects", mk(json!({}), json!([]))),
        ("empty_ring", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[[]]]}]}}), json!([[0,0,0]]))),
        ("empty_bound", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[]}]}}), json!([[0,0,0]]))),
        ("empty_bound_mp", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiPoint","lod":"1","boundaries":[]}]}}), json!([[0,0,0]]))),
        ("empty_surface", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[],[[0,0,0]]]}]}}), json!([[0,0,0]]))),
        ("empty_surface2", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[[0,0,0]],[]]}]}}), json!([[0,0,0]]))),
        ("sem_null_shell", mk(json!({"a":{"type":"Building","geometry":[{"type":"Solid","lod":"1","boundaries":[[[[0,0,0]]],[[[0,0,0]]]],"semantics":{"surfaces":[{"type":"WallSurface"}],"values":[[0],null]}}]}}), json!([[0,0,0]]))),
        ("sem_null_all", mk(json!({"a":{"type":"Building","geometry":[{"type":"Solid","lod":"1","boundaries":[[[[0,0,0]]],[[[0,0,0]]]],"semantics":{"surfaces":[{"type":"WallSurface"}],"values":[null,[0]]}}]}}), json!([[0,0,0]]))),
        ("sem_values_null", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[[0,0,0]],[[0,0,0]]],"semantics":{"surfaces":[{"type":"WallSurface"}],"values":null}}]}}), json!([[0,0,0]]))),
        ("sem_no_surf", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[[0,0,0]],[[0,0,0]]],"semantics":{"surfaces":[],"values":[null,null]}}]}}), json!([[0,0,0]]))),
        ("mat_null_shell", mk(json!({"a":{"type":"Building","geometry":[{"type":"Solid","lod":"1","boundaries":[[[[0,0,0]]],[[[0,0,0]]]],"material":{"t":{"values":[[0],null]}}}]}}), json!([[0,0,0]]))),
        ("mat_empty_theme", mk(json!({"a":{"type":"Building","geometry":[{"type":"Solid","lod":"1","boundaries":[[[[0,0,0]]],[[[0,0,0]]]],"material":{}}]}}), json!([[0,0,0]]))),
        ("mat_empty_values", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[[0,0,0]]],"material":{"t":{"values":[]}}}]}}), json!([[0,0,0]]))),
        ("tex_null", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[[0,0,0]],[[0,0,0]]],"texture":{"t":{"values":[[[null]],[[0,1,2,3]]]}}}]}}), json!([[0,0,0]]))),
        ("unknown_type", mk(json!({"a":{"type":"Foo"}}), json!([[0,0,0]]))),
        ("ext_type_geom_lod_int", mk(json!({"a":{"type":"+Foo","geometry":[{"type":"MultiPoint","boundaries":[0]}]}}), json!([[0,0,0]]))),
        ("sem_unknown", mk(json!({"a":{"type":"Building","geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[[0,0,0]]],"semantics":{"surfaces":[{"type":"Foo"}],"values":[0]}}]}}), json!([[0,0,0]]))),
        ("mixed_inst", mk(json!({"a":{"type":"Building","geometry":[{"type":"GeometryInstance","template":0,"boundaries":[0],"transformationMatrix":[1.0,0.0,0.0,0.0,0.0,1.0,0.0,0.0,0.0,0.0,1.0,0.0,0.0,0.0,0.0,1.0]},{"type":"MultiPoint","boundaries":[0]}]}}), json!([[0,0,0]]))),
        ("attrs_no_schema", mk(json!({"a":{"type":"Building","attributes":{}}}), json!([[0,0,0]]))),
        ("vertex2d", mk(json!({"a":{"type":"Building"}}), json!([[0,0]]))),
        ("vertex_big", mk(json!({"a":{"type":"Building"}}), json!([[3000000000i64,0,0]]))),
        ("address", mk(json!({"a":{"type":"Building","address":[{"a":"b"}]}}), json!([[0,0,0]]))),
        ("feature_ext", { let mut f = mk(json!({"a":{"type":"Building"}}), json!([[0,0,0]])); f["extensions"]=json!({"N":{"url":"http://x","version":"1"}}); f }),
        ("empty_appearance", { let mut f = mk(json!({"a":{"type":"Building"}}), json!([[0,0,0]])); f["appearance"]=json!({}); f }),
    ];
    for (name, v) in cases {
        let f = match guard(|| cjseq::CityJSONFeature::from_str(&v.to_string())) { Ok(Ok(f)) => f, e => { eprintln!("{name}: parse {:?}", e.map(|x| x.map(|_| ()))); continue } };
        let mut r = rand::SeedableRng::seed_from_u64(1);
        let hj = base_header(&mut r);
        let d = Dataset { header: parse_header(&hj), header_json: hj, feats_json: vec![v.clone()], feats: vec![f], schema: Default::default(), sem_schema: None,
            opts: fcb_core::header_writer::HeaderWriterOptions { write_index: true, feature_count: 1, index_node_size: 16, attribute_indices: None, geographical_extent: None } };
        let mut rr = Rep::default();
        roundtrip(&d, &mut rr, 0, name);
        let parsed = canon(&d.feats[0]);
        if let Some(x) = diff(&v, &parsed) { eprintln!("{name}: cjseq parse differs {x:?}"); }
        for x in rr.violations { eprintln!("{name}: {} {}", x.sig, x.msg); }
    }
    let _ = rep;
}

// ---------------------------------------------------------------------------------------------- C02

/// serves the same extension file for every path
pub struct ExtServer {
    pub port: u16,
    pub hits: std::sync::Arc<std::sync::atomic::AtomicU64>,
}
impl ExtServer {
    pub fn start() -> ExtServer {
        use std::io::{BufRead, BufReader, Write};
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        let hits = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
        let hc = hits.clone();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let hc = hc.clone();
                std::thread::spawn(move || {
                    let mut r = BufReader::new(c.try_clone().unwrap());
                    let mut first = String::new();
                    let mut line = String::new();
                    while r.read_line(&mut line).unwrap_or(0) > 2 {
                        if first.is_empty() {
                            first = line.clone();
                        }
                        line.clear();
                    }
                    let path = first.split(' ').nth(1).unwrap_or("").to_string();
                    let body = ext_body(&path).to_string();
                    hc.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let mut c = c;
                    let _ = write!(c, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}", body.len(), body);
                });
            }
        });
        ExtServer { port, hits }
    }
}
fn ext_body(path: &str) -> Value {
    json!({"type": "CityJSONExtension", "name": "ignored", "description": format!("extension at {path}"), "version": "9.9",
        "extraAttributes": {"Building": {format!("+{}", path.len()): {"type": "number"}}},
        "extraCityObjects": {"+NoiseBuilding": {"path": path}}, "extraRootProperties": {"+root": {"p": path.len()}},
        "extraSemanticSurfaces": {"+ThermalSurface": {}}})
}

fn text(r: &mut rand::rngs::StdRng) -> String {
    if r.gen_bool(0.1) {
        String::new()
    } else {
        word(r)
    }
}

pub fn metadata(r: &mut rand::rngs::StdRng) -> Value {
    let mut m = serde_json::Map::new();
    for k in ["identifier", "title", "referenceDate"] {
        if r.gen() {
            m.insert(k.into(), json!(text(r)));
        }
    }
    if r.gen() {
        let auth = *rand::seq::SliceRandom::choose(&["EPSG", "OGC", "IGNF", "é"][..], r).unwrap();
        let ver = *rand::seq::SliceRandom::choose(&["0", "1", "2147483647", "-1", "10"][..], r).unwrap();
        let code = *rand::seq::SliceRandom::choose(&["7415", "0", "28992", "CRS84", "LAMB93", "007", "-1", "2147483648", "2147483647", "+5", ""][..], r).unwrap();
        m.insert("referenceSystem".into(), json!(format!("https://www.opengis.net/def/crs/{auth}/{ver}/{code}")));
    }
    if r.gen() {
        let e: Vec<f64> = (0..6).map(|_| finite(r)).collect();
        m.insert("geographicalExtent".into(), json!(e));
    }
    if r.gen() {
        let mut p = serde_json::Map::new();
        p.insert("contactName".into(), json!(text(r)));
        p.insert("emailAddress".into(), json!(text(r)));
        for k in ["contactType", "role", "phone", "website"] {
            if r.gen() {
                p.insert(k.into(), json!(text(r)));
            }
        }
        if r.gen() {
            p.insert("address".into(), json!({"thoroughfareNumber": if r.gen() { r.gen::<i64>() } else { r.gen_range(1..200) },
                "thoroughfareName": text(r), "locality": text(r), "postalCode": text(r), "country": text(r)}));
        }
        m.insert("pointOfContact".into(), Value::Object(p));
    }
    Value::Object(m)
}

/// the members of a header which the format carries, in comparable form
pub fn header_view(cj: &cjseq::CityJSON) -> Value {
    let v = serde_json::to_value(cj).unwrap();
    let mut o = serde_json::Map::new();
    for k in ["type", "version", "transform", "metadata", "appearance", "geometry-templates", "extensions"] {
        match v.get(k) {
            None | Some(Value::Null) => {}
            Some(Value::Object(m)) if m.is_empty() => {}
            Some(x) => {
                o.insert(k.into(), x.clone());
            }
        }
    }
    Value::Object(o)
}

pub fn random_header(r: &mut rand::rngs::StdRng, port: Option<u16>) -> Value {
    let mut hj = base_header(r);
    hj["version"] = json!(*rand::seq::SliceRandom::choose(&["2.0", "1.1", "1.0", "2.0.1", ""][..], r).unwrap());
    hj["transform"] = json!({"scale": [finite(r), finite(r), finite(r)], "translate": [finite(r), finite(r), finite(r)]});
    if r.gen_bool(0.9) {
        hj["metadata"] = metadata(r);
    }
    if r.gen_bool(0.4) {
        let mut g = GeomCfg { materials: r.gen(), textures: r.gen(), semantics: r.gen(), ..Default::default() };
        g.maxlen = 2;
        let n = r.gen_range(0..4);
        let t: Vec<Value> = (0..n).map(|_| geometry(r, &g, 8)).collect();
        let vt: Vec<Value> = (0..r.gen_range(0..9)).map(|_| json!([finite(r), finite(r), finite(r)])).collect();
        hj["geometry-templates"] = json!({"templates": t, "vertices-templates": vt});
    }
    if r.gen_bool(0.3) {
        hj["appearance"] = appearance(r, 3, 3, 6);
    }
    if let Some(port) = port {
        let mut e = serde_json::Map::new();
        for i in 0..r.gen_range(1..4) {
            e.insert(format!("Ext{i}"), json!({"url": format!("http://127.0.0.1:{port}/{i}/{}", r.gen::<u16>()), "version": format!("{}.{i}", r.gen_range(0..9))}));
        }
        hj["extensions"] = Value::Object(e);
    }
    hj
}

/// a header large in one or more respects
fn enlarge_header(r: &mut rand::rngs::StdRng, d: &mut Dataset) {
    use rand::seq::SliceRandom;
    let len = *LENS.choose(r).unwrap();
    let s = ["t", "é", "語"].choose(r).unwrap().repeat(len);
    match r.gen_range(0..6) {
        0 => d.header_json["metadata"][*["title", "identifier", "referenceDate"].choose(r).unwrap()] = json!(s),
        1 => d.header_json["metadata"]["pointOfContact"] = json!({"contactName": s, "emailAddress": "", "website": s, "address": {"thoroughfareNumber": 1, "thoroughfareName": s, "locality": s, "postalCode": "", "country": "x"}}),
        2 => d.header_json["appearance"] = appearance(r, len.min(3000) as u32, len.min(3000) as u32, len as u32),
        3 | 4 => {
            let n = if r.gen() { len.min(1100) } else { 2 };
            let nvt = if n == 2 { len as u32 } else { 8 };
            let g = GeomCfg { maxlen: 2, ..Default::default() };
            let t: Vec<Value> = (0..n).map(|_| geometry(r, &g, nvt)).collect();
            let vt: Vec<Value> = (0..nvt).map(|_| json!([finite(r), finite(r), finite(r)])).collect();
            d.header_json["geometry-templates"] = json!({"templates": t, "vertices-templates": vt});
        }
        _ => {
            let n = len.min(5000);
            let names: Vec<(String, K)> = (0..n).map(|i| (format!("column {i}"), *[K::Int, K::Str, K::Bool, K::Bin].choose(r).unwrap())).collect();
            d.schema = schema_of(&names, r);
            d.feats_json.iter_mut().for_each(|f| f["CityObjects"].as_object_mut().unwrap().values_mut().for_each(|o| { o.as_object_mut().unwrap().remove("attributes"); }));
            d.feats = d.feats_json.iter().map(parse_feature).collect();
        }
    }
}

pub fn c02(ctx: &Ctx, rep: &mut Rep) {
    let srv = ExtServer::start();
    let go = |r: &mut rand::rngs::StdRng, c: u64, rep: &mut Rep, port: Option<u16>| {
        let mut cfg = DsCfg { n: r.gen_range(0..4), ..Default::default() };
        cfg.geom.maxlen = 2;
        cfg.coord = 1000;
        cfg.write_index = r.gen_bool(0.7);
        let kinds = [K::Bool, K::ULong, K::Long, K::Double, K::Str, K::Date, K::Json, K::Int, K::UInt, K::Float, K::Short, K::UShort, K::Byte, K::UByte, K::Bin];
        if r.gen() {
            cfg.attrs = random_attrs(r, &kinds);
        }
        if r.gen() {
            cfg.geom.sem_attrs = random_attrs(r, &kinds);
        }
        let mut d = dataset(r, &cfg);
        d.header_json = random_header(r, port);
        if rep.stage == "scale" {
            enlarge_header(r, &mut d);
        }
        d.header = parse_header(&d.header_json);
        // the count announced beforehand may be anything; the one declared is the one written
        d.opts.feature_count = *rand::seq::SliceRandom::choose(&[0, cfg.n as u64, 77][..], r).unwrap();
        if r.gen_bool(0.3) {
            let e: Vec<f64> = (0..6).map(|_| finite(r)).collect();
            d.opts.geographical_extent = Some([e[0], e[1], e[2], e[3], e[4], e[5]]);
        }
        let mut want = header_view(&d.header);
        if let Some(e) = d.opts.geographical_extent {
            want["metadata"]["geographicalExtent"] = json!(e);
        }
        let bytes = match write_ds(&d) {
            Ok(b) => b,
            Err(e) => return rep.violate("write", e),
        };
        let arc = std::sync::Arc::new(bytes.clone());
        let mut look = |mode: &str, hd: fcb_core::Header| {
            let cj = match fcb_core::deserializer::to_cj_metadata(&hd) {
                Ok(c) => c,
                Err(e) => return rep.violate(format!("{mode}:decode"), e.to_string()),
            };
            let got = header_view(&cj);
            if let Some((p, m)) = diff(&want, &got) {
                rep.violate(format!("header:{}", generalise(&p)), format!("{mode}: {p}: {m}"));
            }
            if hd.features_count() != cfg.n as u64 {
                rep.violate("features_count", format!("{mode}: declared {} wrote {} (announced {})", hd.features_count(), cfg.n, d.opts.feature_count));
            }
            // declared columns are the schema's
            for (what, cols, schema) in [("columns", hd.columns(), Some(&d.schema)), ("semantic_columns", hd.semantic_columns(), d.sem_schema.as_ref())] {
                let got: BTreeMap<String, (u16, u8)> = cols.map(|c| c.iter().map(|c| (c.name().to_string(), (c.index(), c.type_().0))).collect()).unwrap_or_default();
                let want: BTreeMap<String, (u16, u8)> = schema.map(|s| s.iter().map(|(k, v)| (k.clone(), (v.0, v.1 .0))).collect()).unwrap_or_default();
                if got != want {
                    rep.violate(what, format!("{mode}: {got:?} want {want:?}"));
                }
            }
            // the extension files behind the declarations
            if let (Some(x), Some(e)) = (hd.extensions(), d.header_json.get("extensions").and_then(|e| e.as_object())) {
                for x in x.iter() {
                    let Some(decl) = e.get(x.name().unwrap_or("")) else {
                        rep.violate("extension:name", format!("{mode}: {:?}", x.name()));
                        continue;
                    };
                    let path = decl["url"].as_str().unwrap().splitn(4, '/').nth(3).map(|p| format!("/{p}")).unwrap();
                    let b = ext_body(&path);
                    let j = |s: Option<&str>| serde_json::from_str::<Value>(s.unwrap_or("null")).unwrap_or(Value::Null);
                    let same = x.description() == b["description"].as_str()
                        && j(x.extra_attributes()) == b["extraAttributes"]
                        && j(x.extra_city_objects()) == b["extraCityObjects"]
                        && j(x.extra_root_properties()) == b["extraRootProperties"]
                        && j(x.extra_semantic_surfaces()) == b["extraSemanticSurfaces"];
                    if !same {
                        rep.violate("extension:content", format!("{mode}: extension {:?} is not what {path} holds", x.name()));
                    }
                    rep.inc("extensions_compared");
                }
            }
            rep.inc("headers_compared");
        };
        let mut summary = None;
        let res = guard(|| -> Result<(), String> {
            let rd = fcb_core::FcbReader::open(Cursor::new(&bytes)).map_err(|e| e.to_string())?;
            look("opened", rd.header());
            let it = rd.select_all().map_err(|e| e.to_string())?;
            look("seek", it.header());
            let it = fcb_core::FcbReader::open(&bytes[..]).map_err(|e| e.to_string())?.select_all_seq().map_err(|e| e.to_string())?;
            look("seq", it.header());
            block_on(async {
                let m = MockHttp::new(arc.clone());
                let rd = fcb_core::HttpFcbReader::new(m.buffered()).await.map_err(|e| e.to_string())?;
                look("http", rd.header());
                let it = rd.select_all().await.map_err(|e| e.to_string())?;
                look("http_iter", it.header());
                let b = it.cur_feature();
                if let Ok(meta) = b.meta() {
                    let want: BTreeMap<&str, String> = d.schema.iter().map(|(k, v)| (k.as_str(), format!("{:?}", v.1))).collect();
                    let got: BTreeMap<&str, String> = meta.columns.iter().map(|c| (c.name.as_str(), format!("{:?}", c._type))).collect();
                    if want != got || meta.feature_count != cfg.n as u64 {
                        summary = Some(format!("{got:?} want {want:?}, {} features want {}", meta.feature_count, cfg.n));
                    }
                }
                Ok::<(), String>(())
            })
        });
        if let Some(s) = summary {
            rep.violate("summary", s);
        }
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => rep.violate("read", e),
            Err(p) => rep.violate(format!("panic:{}", p.file()), format!("{}: {}", p.loc, p.msg)),
        }
        for k in ["metadata", "appearance", "geometry-templates", "extensions"] {
            if want.get(k).is_some() {
                rep.inc(&format!("with_{k}"));
            }
        }
        rep.eval(if want.get("metadata").is_some() || want.get("geometry-templates").is_some() { Some(h(&bytes)) } else { None });
        rep.sample(|| json!({"case": c, "header": d.header_json}));
    };
    run_cases(ctx, rep, "headers", ctx.n(30_000, 600_000), |r, c, rep| go(r, c, rep, None));
    run_cases(ctx, rep, "extensions", ctx.n(150, 3000), |r, c, rep| go(r, c, rep, Some(srv.port)));
    run_cases(ctx, rep, "scale", ctx.n(160, 3000), |r, c, rep| go(r, c, rep, None));
    rep.add("extension_files_served", srv.hits.load(std::sync::atomic::Ordering::Relaxed));
    // a reference system whose version is not an integer
    run_cases(ctx, rep, "ref_version", 1, |r, _, rep| {
        for url in ["https://www.opengis.net/def/crs/OGC/1.3/CRS84"] {
            let mut d = dataset(r, &DsCfg { n: 1, ..Default::default() });
            d.header_json["metadata"] = json!({"referenceSystem": url});
            d.header = parse_header(&d.header_json);
            let bytes = match write_ds(&d) {
                Ok(b) => b,
                Err(e) => return rep.violate("write", e),
            };
            let Ok(rd) = fcb_core::FcbReader::open(Cursor::new(&bytes)) else { return rep.violate("read", "open") };
            let got = fcb_core::deserializer::to_cj_metadata(&rd.header()).ok().and_then(|c| c.metadata).and_then(|m| m.reference_system).map(|r| r.to_url());
            if got.as_deref() != Some(url) {
                rep.violate("ref_version_not_integer:OGC/1.3/CRS84", format!("{url} is read back as {got:?}"));
            }
            rep.eval(Some(h(url)));
        }
    });
}
