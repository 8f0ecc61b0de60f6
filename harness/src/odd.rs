//! Writer inputs out of the ordinary (C23): whatever the CityJSON types can hold is written faithfully or refused.
use crate::gen::*;
use crate::lib_io::*;
use crate::rep::*;
use crate::rt::generalise;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::FcbWriter;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::io::Cursor;

fn odd_number(r: &mut StdRng) -> Value {
    let ints = [-1i64, 0, 1, 255, 256, 65535, 65536, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64, u32::MAX as i64 - 1, u32::MAX as i64 + 1, i64::MAX, i64::MIN];
    match r.gen_range(0..10) {
        0 => json!(u64::MAX),
        1 => json!(finite(r)),
        2 => json!(*[0.5, -0.0, 1e300, -1e300, 5e-324].choose(r).unwrap()),
        _ => json!(*ints.choose(r).unwrap()),
    }
}
fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
fn nth<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        Value::Array(a) => a.iter_mut().find_map(|x| nth(x, n)),
        Value::Object(o) => o.values_mut().find_map(|x| nth(x, n)),
        _ => None,
    }
}
fn oddify(r: &mut StdRng, v: &mut Value) -> String {
    let mut n = r.gen_range(0..count(v));
    let Some(x) = nth(v, &mut n) else { return "nothing".into() };
    let before = x.to_string().chars().take(60).collect::<String>();
    let same = |r: &mut StdRng, x: &Value| match x {
        Value::Number(_) => odd_number(r),
        Value::String(s) => json!(match r.gen_range(0..4) {
            0 => String::new(),
            1 => format!("{s}\0x"),
            2 => "+Odd".to_string(),
            _ => "é\u{10FFFF}\"\\".repeat(r.gen_range(1..40)),
        }),
        Value::Bool(b) => json!(!b),
        Value::Null => json!(0),
        _ => Value::Null,
    };
    match x {
        Value::Array(a) if r.gen_bool(0.8) => match r.gen_range(0..6) {
            0 => a.clear(),
            1 if !a.is_empty() => {
                let i = r.gen_range(0..a.len());
                a.remove(i);
            }
            2 if !a.is_empty() => {
                let i = r.gen_range(0..a.len());
                let e = a[i].clone();
                a.insert(i, e);
            }
            3 if !a.is_empty() => {
                let i = r.gen_range(0..a.len());
                a[i] = Value::Null;
            }
            4 => *x = json!([x.clone()]),
            _ if !a.is_empty() => *x = a[0].clone(),
            _ => a.push(json!(0)),
        },
        Value::Object(o) if r.gen_bool(0.8) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            match (keys.choose(r), r.gen_range(0..3)) {
                (Some(k), 0) => {
                    o.remove(k);
                }
                (Some(k), 1) => {
                    let e = o[k].clone();
                    o.insert(format!("{k}x"), e);
                }
                _ => {
                    o.insert("odd".into(), any_json(r, 2));
                }
            }
        }
        _ => {
            *x = match r.gen_range(0..6) {
                0 => Value::Null,
                1 => any_json(r, 1),
                _ => same(r, x),
            }
        }
    }
    format!("{before} -> {}", x.to_string().chars().take(60).collect::<String>())
}


/// One thing a feature cannot have in the format, or only just can.
fn spoil(r: &mut StdRng, f: &mut Value) -> Option<(Judge, String)> {
    use Judge::*;
    let edge = |r: &mut StdRng, at: i64| json!(at + r.gen_range(-2..3));
    let nv = f["vertices"].as_array().map_or(0, |v| v.len());
    if r.gen_bool(0.3) && nv > 0 {
        let v = f["vertices"][r.gen_range(0..nv)].as_array_mut().filter(|v| v.len() == 3)?;
        return Some((Spoilt, match r.gen_range(0..4) {
            0 => {
                v.pop();
                "vertex of two".into()
            }
            1 => {
                v.push(json!(0));
                "vertex of four".into()
            }
            _ => {
                let k = r.gen_range(0..3);
                let at = *[i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 40, i64::MAX - 2, i64::MIN + 2].choose(r).unwrap();
                v[k] = edge(r, at);
                let fits = v[k].as_i64().is_some_and(|x| i32::try_from(x).is_ok());
                return Some((if fits { Fits } else { Spoilt }, format!("coordinate {}", v[k])));
            }
        }));
    }
    let mut gs: Vec<&mut Value> = f["CityObjects"].as_object_mut()?.values_mut().filter_map(|o| o.get_mut("geometry")?.as_array_mut()).flatten().collect();
    if gs.is_empty() {
        return None;
    }
    let k = r.gen_range(0..gs.len());
    let g = &mut *gs[k];
    fn leaf<'a>(r: &mut StdRng, v: &'a mut Value) -> Option<&'a mut Value> {
        if v.is_array() {
            let a = v.as_array_mut()?;
            let k = (!a.is_empty()).then(|| r.gen_range(0..a.len()))?;
            return leaf(r, &mut a[k]);
        }
        Some(v)
    }
    let at = *[u32::MAX as i64, u32::MAX as i64, u32::MAX as i64 + 1, 1 << 40, 1 << 63 >> 1].choose(r).unwrap();
    let at = if at < 0 { i64::MAX - 2 } else { at };
    let big = edge(r, at);
    if g["type"] == "GeometryInstance" {
        return Some((Spoilt, match r.gen_range(0..5) {
            0 => {
                g.as_object_mut()?.remove("template");
                "no template".into()
            }
            1 => {
                g.as_object_mut()?.remove("transformationMatrix");
                "no matrix".into()
            }
            2 => {
                g["boundaries"] = json!([0, 0]);
                "two points".into()
            }
            3 => {
                g["boundaries"] = json!([]);
                "no point".into()
            }
            _ => {
                g["template"] = big.clone();
                format!("template {big}")
            }
        }));
    }
    let kind = r.gen_range(0..7);
    match kind {
        0 => g["boundaries"] = json!([g["boundaries"]]),
        1 => g["boundaries"] = g["boundaries"].get(0)?.clone(),
        2 => {
            let n = g["boundaries"].as_array()?.len();
            if n == 0 {
                return None;
            }
            let k = r.gen_range(0..n);
            let b = &mut g["boundaries"][k];
            *b = if r.gen() { json!([b]) } else { b.get(0)?.clone() };
        }
        3 => *leaf(r, g.pointer_mut("/semantics/values")?)? = big,
        4 => {
            let m = g.get_mut("material")?.as_object_mut()?.values_mut().next()?;
            let m = if m.get("value").is_some() { m.get_mut("value")? } else { m.get_mut("values")? };
            *leaf(r, m)? = big;
        }
        5 => *leaf(r, g.get_mut("texture")?.as_object_mut()?.values_mut().next()?.get_mut("values")?)? = big,
        _ => {
            let v = g.pointer_mut("/semantics/values")?.as_array_mut()?;
            v.pop()?;
            if v.is_empty() {
                return None;
            }
        }
    }
    // the numbers are to come back; what belongs to a list of another shape need not
    Some((if (3..6).contains(&kind) { Spoilt } else { Bones }, format!("{:.300}", g.to_string())))
}

/// boundaries made of nothing but empty lists
fn leafless(b: &Value) -> bool {
    b.as_array().is_some_and(|a| a.iter().all(leafless))
}
/// What has to come back from anything that is accepted.
fn bones(f: &Value) -> Value {
    let mut objects = serde_json::Map::new();
    for (id, o) in f["CityObjects"].as_object().into_iter().flatten() {
        let geometry: Vec<Value> = o["geometry"].as_array().into_iter().flatten().map(|g| json!([g["type"], g["lod"], if leafless(&g["boundaries"]) { &Value::Null } else { &g["boundaries"] }, g["template"], g["transformationMatrix"]])).collect();
        objects.insert(id.clone(), json!({"geometry": geometry, "parents": o["parents"], "children": o["children"]}));
    }
    json!({"id": f["id"], "vertices": f["vertices"], "objects": objects})
}
/// everything but the attributes (C01), which may be of another type than the schema says
fn without_attributes(f: &Value) -> Value {
    let mut f = f.clone();
    for o in f["CityObjects"].as_object_mut().into_iter().flatten() {
        o.1.as_object_mut().map(|o| o.remove("attributes"));
    }
    expand_nulls(&mut f);
    f
}

#[derive(PartialEq, Clone, Copy)]
enum Judge {
    Whole,
    Fits,
    Spoilt,
    Bones,
}

fn setup(r: &mut StdRng) -> (Dataset, DsCfg) {
    let mut cfg = DsCfg { n: r.gen_range(1..6), ..Default::default() };
    cfg.geom.semantics = r.gen();
    cfg.geom.maxlen = r.gen_range(1..4);
    cfg.geom.materials = r.gen();
    cfg.geom.textures = r.gen();
    cfg.feature_appearance = r.gen();
    cfg.geom.n_templates = *[0u32, 0, 3].choose(r).unwrap();
    cfg.write_index = r.gen();
    if r.gen() {
        cfg.attrs = crate::rt::random_attrs(r, &crate::attrq::INDEXABLE);
        cfg.index_attrs = cfg.attrs.iter().filter_map(|(n, _)| r.gen_bool(0.6).then(|| (n.clone(), *[None, Some(2), Some(16)].choose(r).unwrap()))).collect();
    }
    let d = dataset(r, &cfg);
    (d, cfg)
}

/// Writes what the writer accepts, and reads it back.
fn attempt(r: &mut StdRng, rep: &mut Rep, d: &Dataset, cfg: &DsCfg, judge: &[Judge], what: &str) {
    let mut accepted = vec![];
    let mut refused = 0;
    let res = guard(|| -> Result<Option<Vec<u8>>, String> {
        let Ok(mut w) = FcbWriter::new(d.header.clone(), Some(d.opts.clone()), Some(d.schema.clone()), d.sem_schema.clone()) else { return Ok(None) };
        for (k, f) in d.feats.iter().enumerate() {
            match w.add_feature(f) {
                Ok(()) => accepted.push(k),
                Err(e) if matches!(judge[k], Judge::Whole | Judge::Fits) => return Err(format!("a feature which fits is refused: {e}")),
                Err(_) => refused += 1,
            }
        }
        let mut out = vec![];
        w.write(&mut out).map_err(|e| format!("write fails after all of add_feature succeeded: {e}"))?;
        Ok(Some(out))
    });
    let bytes = match res {
        Err(p) => return rep.violate(format!("panic:{}", p.loc.rsplit('/').next().unwrap_or("")), format!("{} {}; {what}", p.loc, p.msg)),
        Ok(Err(e)) => return rep.violate("refused_wrongly", format!("{e}; {what}")),
        Ok(Ok(None)) => return rep.inc("header_refused"),
        Ok(Ok(Some(b))) => b,
    };
    rep.add("features_refused", refused);
    if refused > 0 && !accepted.is_empty() {
        rep.inc("written_after_a_refusal");
    }
    let (mode, got) = match r.gen_range(0..4) {
        0 => ("seq", drain_seq(&bytes[..], &Sel::All)),
        1 => ("http", drain_http(&MockHttp::new(std::sync::Arc::new(bytes.clone())), &Sel::All)),
        _ => ("seek", drain_seek(Cursor::new(&bytes), &Sel::All)),
    };
    rep.inc(&format!("read_{mode}"));
    if !got.ok() || got.current.is_some() {
        return rep.violate(format!("unreadable:{:.30}", got.problem()), format!("{mode}: {}; {what}", got.problem()));
    }
    if got.announced.is_some_and(|n| n != accepted.len()) || got.feats.len() != accepted.len() {
        return rep.violate("count", format!("{mode}: {} features accepted, {:?} announced, {} read; {what}", accepted.len(), got.announced, got.feats.len()));
    }
    // the indexes know the features that are as they were made
    if judge.contains(&Judge::Whole) {
        let mut questions = vec![];
        if cfg.write_index {
            questions.push((Sel::Bbox(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::INFINITY), None));
        }
        if let Some((name, _)) = cfg.index_attrs.choose(r) {
            let kind = cfg.attrs.iter().find(|(n, _)| n == name).unwrap().1;
            let own = accepted.iter().filter(|k| judge[**k] == Judge::Whole).find_map(|k| {
                let key = d.feats[*k].city_objects.values().find_map(|o| crate::attrq::key_of(kind, o.attributes.as_ref()?.get(name)?))?;
                Some((*k, key))
            });
            if let Some((k, key)) = own {
                questions.push((Sel::Attr(vec![(name.clone(), fcb_core::static_btree::Operator::Eq, key)]), Some(k)));
            }
        }
        for (sel, about) in questions {
            let got = if r.gen() { drain_seek(Cursor::new(&bytes), &sel) } else { drain_seq(&bytes[..], &sel) };
            if !got.ok() {
                return rep.violate(format!("unreadable_selection:{:.30}", got.problem()), format!("{}; {what}", got.problem()));
            }
            let found = got.ids();
            for k in accepted.iter().filter(|k| judge[**k] == Judge::Whole && about.is_none_or(|a| a == **k) && !d.feats[**k].vertices.is_empty()) {
                if !found.contains(&d.feats[*k].id) {
                    return rep.violate("not_in_index", format!("feature {:?} is not found by {}; {what}", d.feats[*k].id, sel.name()));
                }
            }
            rep.inc(&format!("selected_{}", sel.name()));
        }
    }
    let mut read: Vec<Value> = got.feats.iter().map(canon).collect();
    for k in accepted {
        let want = canon(&d.feats[k]);
        let Some(p) = read.iter().position(|x| x["id"] == want["id"] && x["vertices"] == want["vertices"]) else {
            return rep.violate("vertices", format!("{mode}: feature {} is not read with its vertices; {what}", want["id"]));
        };
        let have = read.swap_remove(p);
        let view = |v: &Value| match judge[k] {
            Judge::Whole | Judge::Fits => {
                let mut v = v.clone();
                expand_nulls(&mut v);
                v
            }
            Judge::Spoilt => without_attributes(v),
            Judge::Bones => bones(v),
        };
        if let Some((p, m)) = diff(&view(&want), &view(&have)) {
            return rep.violate(format!("altered:{}", generalise(&p)), format!("{mode}: feature {} at {p}: {m}; {what}", want["id"]));
        }
        rep.inc(match judge[k] {
            Judge::Whole => "intact_beside",
            Judge::Fits | Judge::Spoilt => "on_the_edge_intact",
            Judge::Bones => "odd_intact",
        });
    }
    rep.eval(Some(h(&bytes)));
}

pub fn c23(ctx: &Ctx, rep: &mut Rep) {
    // anything the CityJSON types take
    run_cases(ctx, rep, "odd", ctx.n(20_000, 800_000), |r, _, rep| {
        let (mut d, cfg) = setup(r);
        let mut judge = vec![Judge::Whole; d.feats_json.len()];
        let mut what = vec![];
        for _ in 0..*[1, 1, 1, 2, 5].choose(r).unwrap() {
            let k = r.gen_range(0..=d.feats_json.len());
            what.push(if k == d.feats_json.len() {
                judge.fill(Judge::Bones);
                format!("header {}", oddify(r, &mut d.header_json))
            } else {
                judge[k] = Judge::Bones;
                oddify(r, &mut d.feats_json[k])
            });
        }
        let what = what.join("; ");
        let Ok(Ok(header)) = guard(|| serde_json::from_value::<CityJSON>(d.header_json.clone())) else { return rep.inc("not_cityjson") };
        let Ok(Ok(feats)) = guard(|| d.feats_json.iter().map(|f| serde_json::from_value::<CityJSONFeature>(f.clone())).collect::<Result<Vec<_>, _>>()) else { return rep.inc("not_cityjson") };
        d.header = header;
        d.feats = feats;
        attempt(r, rep, &d, &cfg, &judge, &what);
    });
    // numbers at the ends of what the format holds, lists nested or filled wrongly
    run_cases(ctx, rep, "edge", ctx.n(12_000, 400_000), |r, _, rep| {
        let (mut d, cfg) = setup(r);
        let mut judge = vec![Judge::Whole; d.feats_json.len()];
        let mut what = vec![];
        for _ in 0..*[1, 1, 2].choose(r).unwrap() {
            let k = r.gen_range(0..d.feats_json.len());
            let mut f = d.feats_json[k].clone();
            let Some((j, w)) = spoil(r, &mut f) else { continue };
            let Ok(Ok(parsed)) = guard(|| serde_json::from_value::<CityJSONFeature>(f.clone())) else { continue };
            judge[k] = match (judge[k], j) {
                (Judge::Bones, _) | (_, Judge::Bones) => Judge::Bones,
                (Judge::Spoilt, _) => Judge::Spoilt,
                _ => j,
            };
            d.feats_json[k] = f;
            d.feats[k] = parsed;
            what.push(w);
        }
        if what.is_empty() {
            return rep.inc("nothing_to_spoil");
        }
        attempt(r, rep, &d, &cfg, &judge, &what.join("; "));
    });
}
