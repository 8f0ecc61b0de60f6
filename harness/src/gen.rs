//! Random CityJSONSeq datasets (JSON first, parsed through cjseq as a user would).
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::attribute::AttributeSchema;
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::fb::header_generated::ColumnType;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Dataset {
    pub header_json: Value,
    pub header: CityJSON,
    pub feats_json: Vec<Value>,
    pub feats: Vec<CityJSONFeature>,
    pub schema: AttributeSchema,
    pub sem_schema: Option<AttributeSchema>,
    pub opts: HeaderWriterOptions,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Bool,
    ULong,
    Long,
    Double,
    Str,
    Date,
    Json,
    Int,
    UInt,
    Float,
    Byte,
    UByte,
    Short,
    UShort,
    Bin,
}
impl K {
    pub fn col(self) -> ColumnType {
        match self {
            K::Bool => ColumnType::Bool,
            K::ULong => ColumnType::ULong,
            K::Long => ColumnType::Long,
            K::Double => ColumnType::Double,
            K::Str => ColumnType::String,
            K::Date => ColumnType::DateTime,
            K::Json => ColumnType::Json,
            K::Int => ColumnType::Int,
            K::UInt => ColumnType::UInt,
            K::Float => ColumnType::Float,
            K::Byte => ColumnType::Byte,
            K::UByte => ColumnType::UByte,
            K::Short => ColumnType::Short,
            K::UShort => ColumnType::UShort,
            K::Bin => ColumnType::Binary,
        }
    }
}

pub const OBJ_TYPES: &[&str] = &[
    "Bridge", "BridgePart", "BridgeInstallation", "BridgeConstructiveElement", "BridgeRoom", "BridgeFurniture",
    "Building", "BuildingPart", "BuildingInstallation", "BuildingConstructiveElement", "BuildingFurniture",
    "BuildingStorey", "BuildingRoom", "BuildingUnit", "CityFurniture", "CityObjectGroup", "GenericCityObject",
    "LandUse", "OtherConstruction", "PlantCover", "SolitaryVegetationObject", "TINRelief", "Road", "Railway",
    "Waterway", "TransportSquare", "Tunnel", "TunnelPart", "TunnelInstallation", "TunnelConstructiveElement",
    "TunnelHollowSpace", "TunnelFurniture", "WaterBody",
];
pub const SEM_TYPES: &[&str] = &[
    "RoofSurface", "GroundSurface", "WallSurface", "ClosureSurface", "OuterCeilingSurface", "OuterFloorSurface",
    "Window", "Door", "InteriorWallSurface", "CeilingSurface", "FloorSurface", "WaterSurface", "WaterGroundSurface",
    "WaterClosureSurface", "TrafficArea", "AuxiliaryTrafficArea", "TransportationMarking", "TransportationHole",
];

pub fn word(r: &mut StdRng) -> String {
    const A: &[char] = &['a', 'b', 'z', 'A', 'Z', '0', '9', '_', '-', ' ', '.', 'é', 'ß', '語', '🏠', '"', '\\', '/', '\t', '\n', '\u{0}', '\u{7f}'];
    let n = match r.gen_range(0..10) {
        0 => 0,
        1..=6 => r.gen_range(1..8),
        7 | 8 => r.gen_range(8..40),
        _ => r.gen_range(40..300),
    };
    (0..n).map(|_| *A.choose(r).unwrap()).collect()
}
pub fn ident(r: &mut StdRng, p: &str, i: usize) -> String {
    match r.gen_range(0..4) {
        0 => format!("{p}{i}"),
        1 => format!("{p}-{i}-{}", r.gen::<u32>()),
        2 => format!("NL.IMBAG.{p}.{i:016}"),
        _ => format!("{p}_{i}_{}", ["é", "語", "x y", "{}"].choose(r).unwrap()),
    }
}

pub fn any_json(r: &mut StdRng, depth: usize) -> Value {
    match r.gen_range(0..if depth == 0 { 6 } else { 8 }) {
        0 => json!(r.gen::<bool>()),
        1 => json!(r.gen::<i64>()),
        2 => json!(r.gen::<u64>()),
        // nested JSON travels as text: doubles which any JSON parser reads back exactly
        3 => json!(r.gen_range(-1_000_000_000i64..1_000_000_000) as f64 / 1000.0),
        4 => json!(word(r)),
        5 => Value::Null,
        6 => Value::Array((0..r.gen_range(0..4)).map(|_| any_json(r, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.gen_range(0..4) {
                m.insert(word(r), any_json(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}
pub fn finite(r: &mut StdRng) -> f64 {
    match r.gen_range(0..10) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::MAX,
        3 => f64::MIN,
        4 => f64::MIN_POSITIVE,
        5 => r.gen_range(-1000..1000) as f64,
        6 => r.gen_range(-1e3..1e3),
        _ => loop {
            let f = f64::from_bits(r.gen());
            if f.is_finite() {
                break f;
            }
        },
    }
}
pub fn date(r: &mut StdRng) -> String {
    let y = match r.gen_range(0..6) {
        0 => r.gen_range(1..1970),
        _ => r.gen_range(1900..2100),
    };
    let base = format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
        y,
        r.gen_range(1..13),
        r.gen_range(1..29),
        r.gen_range(0..24),
        r.gen_range(0..60),
        r.gen_range(0..60)
    );
    let frac = match r.gen_range(0..4) {
        0 => format!(".{:03}", r.gen_range(0..1000)),
        1 => format!(".{:09}", r.gen_range(0..1_000_000_000)),
        _ => String::new(),
    };
    let tz = match r.gen_range(0..4) {
        0 => "+02:00".to_string(),
        1 => "-05:30".to_string(),
        _ => "Z".to_string(),
    };
    format!("{base}{frac}{tz}")
}

pub fn value_of(r: &mut StdRng, k: K) -> Value {
    let edge = r.gen_range(0..5) == 0;
    match k {
        K::Bool => json!(r.gen::<bool>()),
        K::ULong => {
            if edge {
                json!(*[0, 1, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 53, (1 << 53) + 1, (1 << 54) - 1].choose(r).unwrap())
            } else {
                json!(if r.gen() { r.gen::<u64>() } else { r.gen_range(0..100) })
            }
        }
        K::Long => {
            if edge {
                json!(*[0, -1, i64::MIN, i64::MAX, 1, -(1 << 53) - 1, -(1 << 53), (1 << 53) + 3].choose(r).unwrap())
            } else {
                json!(if r.gen() { r.gen::<i64>() } else { r.gen_range(-100..100) })
            }
        }
        K::Double => json!(finite(r)),
        K::Str | K::Bin => json!(word(r)),
        K::Date => json!(date(r)),
        K::Json => {
            if r.gen() {
                Value::Array((0..r.gen_range(0..4)).map(|_| any_json(r, 2)).collect())
            } else {
                let mut m = Map::new();
                for _ in 0..r.gen_range(0..4) {
                    m.insert(word(r), any_json(r, 2));
                }
                Value::Object(m)
            }
        }
        K::Int => json!(if edge { *[i32::MIN, i32::MAX, 0, -1].choose(r).unwrap() } else { r.gen() }),
        K::UInt => json!(if edge { *[u32::MAX, 0].choose(r).unwrap() } else { r.gen() }),
        K::Float => {
            let f = loop {
                let f = f32::from_bits(r.gen());
                if f.is_finite() {
                    break f;
                }
            };
            json!(f as f64)
        }
        K::Byte => json!(if edge { *[i8::MIN, i8::MAX, 0, -1].choose(r).unwrap() } else { r.gen() }),
        K::UByte => json!(if edge { *[u8::MAX, 0].choose(r).unwrap() } else { r.gen() }),
        K::Short => json!(if edge { *[i16::MIN, i16::MAX, 0, -1].choose(r).unwrap() } else { r.gen() }),
        K::UShort => json!(if edge { *[u16::MAX, 0].choose(r).unwrap() } else { r.gen() }),
    }
}

/// A nested boundary array of the given depth (1 = list of indices).
pub fn nest(r: &mut StdRng, depth: usize, nv: u32, maxlen: usize) -> Value {
    let n = r.gen_range(1..=maxlen);
    if depth == 1 {
        Value::Array((0..n).map(|_| json!(r.gen_range(0..nv))).collect())
    } else {
        Value::Array((0..n).map(|_| nest(r, depth - 1, nv, maxlen)).collect())
    }
}
pub fn depth_of(t: &str) -> usize {
    match t {
        "MultiPoint" | "GeometryInstance" => 1,
        "MultiLineString" => 2,
        "MultiSurface" | "CompositeSurface" => 3,
        "Solid" => 4,
        _ => 5,
    }
}
/// depth of the semantics/material values array
pub fn sem_depth(t: &str) -> usize {
    match t {
        "Solid" => 2,
        "MultiSolid" | "CompositeSolid" => 3,
        _ => 1,
    }
}
/// Map the boundary array to a same-shape values array that stops at `depth` levels; leaf made by f.
pub fn shaped(b: &Value, depth: usize, f: &mut dyn FnMut() -> Value) -> Value {
    let a = b.as_array().unwrap();
    if depth == 1 {
        Value::Array(a.iter().map(|_| f()).collect())
    } else {
        Value::Array(a.iter().map(|x| shaped(x, depth - 1, f)).collect())
    }
}
/// Some branches become null, the short form of "nothing in here has a value". The parser takes an array for a list of
/// leaves when its first member is null, so a first member is replaced only together with all of its siblings.
pub fn null_branches(r: &mut StdRng, v: &mut Value, depth: usize, p: f64) {
    if depth < 2 {
        return;
    }
    let a = v.as_array_mut().unwrap();
    for x in a.iter_mut() {
        null_branches(r, x, depth - 1, p);
    }
    if depth == 2 && r.gen_bool(p / 2.0) {
        a.iter_mut().for_each(|x| *x = Value::Null);
        return;
    }
    for x in a.iter_mut().skip(1) {
        if r.gen_bool(p) {
            *x = Value::Null;
        }
    }
}
/// the short forms written out, so that two ways of saying the same compare equal
pub fn expand_nulls(feature: &mut Value) {
    let all_null = |v: &Value| -> bool {
        fn go(v: &Value) -> bool {
            v.as_array().map_or(v.is_null(), |a| a.iter().all(go))
        }
        go(v)
    };
    fn go(v: &mut Value, b: &Value, depth: usize, all_null: &dyn Fn(&Value) -> bool) {
        if all_null(v) {
            *v = shaped(b, depth, &mut || Value::Null);
        } else if depth > 1 {
            if let (Some(a), Some(b)) = (v.as_array_mut(), b.as_array()) {
                for (x, y) in a.iter_mut().zip(b) {
                    go(x, y, depth - 1, all_null);
                }
            }
        }
    }
    let Some(objs) = feature["CityObjects"].as_object_mut() else { return };
    for g in objs.values_mut().filter_map(|o| o.get_mut("geometry")?.as_array_mut()).flatten() {
        let t = g["type"].as_str().unwrap_or("").to_string();
        if !ALL_GEOM.contains(&t.as_str()) {
            continue;
        }
        let b = g["boundaries"].clone();
        if let Some(v) = g.pointer_mut("/semantics/values") {
            go(v, &b, sem_depth(&t), &all_null);
        }
        if let Some(m) = g.get_mut("material").and_then(|m| m.as_object_mut()) {
            for v in m.values_mut().filter_map(|v| v.get_mut("values")) {
                go(v, &b, sem_depth(&t), &all_null);
            }
        }
    }
}
/// rings replaced by texture value lists
pub fn tex_shape(b: &Value, depth: usize, r: &mut StdRng, null_p: f64, ntex: u32, nuv: u32) -> Value {
    let a = b.as_array().unwrap();
    if depth == 1 {
        if r.gen_bool(null_p) {
            json!([null])
        } else {
            let mut v = vec![json!(r.gen_range(0..ntex))];
            for _ in a {
                v.push(json!(r.gen_range(0..nuv)));
            }
            Value::Array(v)
        }
    } else {
        Value::Array(a.iter().map(|x| tex_shape(x, depth - 1, r, null_p, ntex, nuv)).collect())
    }
}

#[derive(Clone)]
pub struct GeomCfg {
    pub types: Vec<&'static str>,
    pub maxlen: usize,
    pub semantics: bool,
    pub sem_attrs: Vec<(String, K)>,
    pub materials: bool,
    pub textures: bool,
    pub n_materials: u32,
    pub n_textures: u32,
    pub n_uv: u32,
    pub n_templates: u32,
    pub lod_optional: bool,
    /// probability of null in place of a branch of semantic and material values
    pub null_p: f64,
}
pub const ALL_GEOM: &[&str] = &[
    "MultiPoint", "MultiLineString", "MultiSurface", "CompositeSurface", "Solid", "MultiSolid", "CompositeSolid",
];

impl Default for GeomCfg {
    fn default() -> Self {
        GeomCfg {
            types: ALL_GEOM.to_vec(),
            maxlen: 3,
            semantics: false,
            sem_attrs: vec![],
            materials: false,
            textures: false,
            n_materials: 3,
            n_textures: 3,
            n_uv: 10,
            n_templates: 0,
            lod_optional: true,
            null_p: 0.0,
        }
    }
}

const THEMES: &[&str] = &["", "visual", "irradiation", "thème 2", "b"];

pub fn geometry(r: &mut StdRng, c: &GeomCfg, nv: u32) -> Value {
    if c.n_templates > 0 && r.gen_bool(0.4) {
        let m: Vec<f64> = (0..16).map(|_| finite(r)).collect();
        return json!({"type": "GeometryInstance", "template": r.gen_range(0..c.n_templates),
            "boundaries": [r.gen_range(0..nv)], "transformationMatrix": m});
    }
    let t = *c.types.choose(r).unwrap();
    let mut b = nest(r, depth_of(t), nv, c.maxlen);
    if (t == "MultiSolid" || t == "CompositeSolid") && b.as_array().unwrap().len() == 1 && !ONE_SOLID_OK {
        let x = nest(r, 4, nv, c.maxlen);
        b.as_array_mut().unwrap().push(x);
    }
    let mut g = json!({"type": t, "boundaries": b});
    if !c.lod_optional || r.gen_bool(0.8) {
        g["lod"] = json!(*["0", "1", "1.3", "2", "2.2", "3"].choose(r).unwrap());
    }
    if c.semantics && r.gen_bool(0.7) {
        let ns = r.gen_range(1..5u32);
        let mut surfaces = vec![];
        for i in 0..ns {
            let mut s = json!({"type": if r.gen_bool(0.1) { "+ThermalSurface" } else { SEM_TYPES.choose(r).unwrap() }});
            if r.gen_bool(0.3) {
                s["parent"] = json!(r.gen_range(0..ns));
            }
            if r.gen_bool(0.3) {
                s["children"] = Value::Array((0..r.gen_range(1..3)).map(|_| json!(r.gen_range(0..ns))).collect());
            }
            for (n, k) in &c.sem_attrs {
                if r.gen_bool(0.5) {
                    s[n] = value_of(r, *k);
                }
            }
            let _ = i;
            surfaces.push(s);
        }
        let mut values = shaped(&g["boundaries"].clone(), sem_depth(t), &mut || if r.gen_bool(0.2) { Value::Null } else { json!(r.gen_range(0..ns)) });
        null_branches(r, &mut values, sem_depth(t), c.null_p);
        g["semantics"] = json!({"surfaces": surfaces, "values": values});
    }
    if depth_of(t) >= 3 {
        if c.materials && r.gen_bool(0.7) {
            let mut m = Map::new();
            for th in THEMES {
                if r.gen_bool(0.4) {
                    let v = if r.gen_bool(0.3) {
                        json!({"value": r.gen_range(0..c.n_materials)})
                    } else {
                        let b = g["boundaries"].clone();
                        let mut vals = shaped(&b, sem_depth(t), &mut || if r.gen_bool(0.2) { Value::Null } else { json!(r.gen_range(0..c.n_materials)) });
                        null_branches(r, &mut vals, sem_depth(t), c.null_p);
                        json!({"values": vals})
                    };
                    m.insert(th.to_string(), v);
                }
            }
            if !m.is_empty() {
                g["material"] = Value::Object(m);
            }
        }
        if c.textures && r.gen_bool(0.7) {
            let mut m = Map::new();
            for th in THEMES {
                if r.gen_bool(0.4) {
                    let b = g["boundaries"].clone();
                    let vals = tex_shape(&b, depth_of(t), r, 0.2, c.n_textures, c.n_uv);
                    m.insert(th.to_string(), json!({"values": vals}));
                }
            }
            if !m.is_empty() {
                g["texture"] = Value::Object(m);
            }
        }
    }
    g
}
/// set to true once MultiSolid/CompositeSolid with exactly one solid round-trips
pub const ONE_SOLID_OK: bool = true;

pub fn appearance(r: &mut StdRng, nm: u32, nt: u32, nuv: u32) -> Value {
    let mut a = Map::new();
    let unit = |r: &mut StdRng| (r.gen_range(0..=100) as f64) / 100.0;
    if nm > 0 {
        let mats: Vec<Value> = (0..nm)
            .map(|i| {
                let mut m = Map::new();
                m.insert("name".into(), json!(format!("mat {i}")));
                for k in ["ambientIntensity", "shininess", "transparency"] {
                    if r.gen() {
                        m.insert(k.into(), json!(unit(r)));
                    }
                }
                for k in ["diffuseColor", "emissiveColor", "specularColor"] {
                    if r.gen() {
                        m.insert(k.into(), json!([unit(r), unit(r), unit(r)]));
                    }
                }
                if r.gen() {
                    m.insert("isSmooth".into(), json!(r.gen::<bool>()));
                }
                Value::Object(m)
            })
            .collect();
        a.insert("materials".into(), json!(mats));
    }
    if nt > 0 {
        let texs: Vec<Value> = (0..nt)
            .map(|i| {
                let mut m = Map::new();
                m.insert("type".into(), json!(*["PNG", "JPG"].choose(r).unwrap()));
                m.insert("image".into(), json!(format!("img/{i}.png")));
                if r.gen() {
                    m.insert("wrapMode".into(), json!(*["none", "wrap", "mirror", "clamp", "border"].choose(r).unwrap()));
                }
                if r.gen() {
                    m.insert("textureType".into(), json!(*["unknown", "specific", "typical"].choose(r).unwrap()));
                }
                if r.gen() {
                    m.insert("borderColor".into(), json!([unit(r), unit(r), unit(r), unit(r)]));
                }
                Value::Object(m)
            })
            .collect();
        a.insert("textures".into(), json!(texs));
        let uv: Vec<Value> = (0..nuv).map(|_| json!([unit(r), unit(r)])).collect();
        a.insert("vertices-texture".into(), json!(uv));
        if r.gen() {
            a.insert("default-theme-texture".into(), json!("visual"));
        }
    }
    if nm > 0 && r.gen() {
        a.insert("default-theme-material".into(), json!("irradiation"));
    }
    Value::Object(a)
}

pub fn transform(r: &mut StdRng) -> Value {
    let s = *[0.001, 0.01, 1.0, 0.5, 1e-6].choose(r).unwrap();
    json!({"scale": [s, s, *[s, 0.001].choose(r).unwrap()],
        "translate": [r.gen_range(-1e6..1e6), r.gen_range(-1e6..1e6), r.gen_range(-100.0..100.0)]})
}

pub fn base_header(r: &mut StdRng) -> Value {
    json!({"type": "CityJSON", "version": "2.0", "transform": transform(r), "CityObjects": {}, "vertices": []})
}

#[derive(Clone)]
pub struct DsCfg {
    pub n: usize,
    pub geom: GeomCfg,
    pub max_objs: usize,
    pub max_geoms: usize,
    pub max_verts: u32,
    pub coord: i64,
    /// attribute name -> kind
    pub attrs: Vec<(String, K)>,
    pub attr_p: f64,
    pub null_p: f64,
    pub write_index: bool,
    pub index_attrs: Vec<(String, Option<u16>)>,
    pub feature_appearance: bool,
    pub count: bool,
    pub ext_types: bool,
    pub own_types: bool,
}
impl Default for DsCfg {
    fn default() -> Self {
        DsCfg {
            n: 5,
            geom: GeomCfg::default(),
            max_objs: 3,
            max_geoms: 3,
            max_verts: 12,
            coord: 1_000_000,
            attrs: vec![],
            attr_p: 0.7,
            null_p: 0.0,
            write_index: true,
            index_attrs: vec![],
            feature_appearance: false,
            count: true,
            ext_types: false,
            own_types: true,
        }
    }
}

pub fn coord(r: &mut StdRng, c: i64) -> i64 {
    match r.gen_range(0..20) {
        0 if c > 1_000_000_000 => *[i32::MIN as i64, i32::MAX as i64, 0, -1].choose(r).unwrap(),
        _ => r.gen_range(-c..=c),
    }
}

pub fn attrs_of(r: &mut StdRng, c: &DsCfg) -> Option<Value> {
    if c.attrs.is_empty() {
        return None;
    }
    let mut m = Map::new();
    for (n, k) in &c.attrs {
        if r.gen_bool(c.attr_p) {
            let v = if c.null_p > 0.0 && r.gen_bool(c.null_p) { Value::Null } else { value_of(r, *k) };
            m.insert(n.clone(), v);
        }
    }
    Some(Value::Object(m))
}

pub fn feature(r: &mut StdRng, c: &DsCfg, i: usize) -> Value {
    let fid = ident(r, "f", i);
    let no = r.gen_range(1..=c.max_objs.max(1));
    let nv = r.gen_range(1..=c.max_verts);
    let verts: Vec<Value> = (0..nv).map(|_| json!([coord(r, c.coord), coord(r, c.coord), coord(r, c.coord)])).collect();
    let mut ids: Vec<String> = vec![fid.clone()];
    for j in 1..no {
        ids.push(ident(r, &format!("{fid}_o"), j));
    }
    ids.dedup();
    let mut objs = Map::new();
    for (j, id) in ids.iter().enumerate() {
        let t = if c.ext_types && r.gen_bool(0.15) { "+NoiseBuilding" } else { OBJ_TYPES.choose(r).unwrap() };
        let mut o = json!({"type": t});
        if r.gen_bool(0.8) {
            let ng = r.gen_range(1..=c.max_geoms.max(1));
            let mut g: Vec<Value> = (0..ng).map(|_| geometry(r, &c.geom, nv)).collect();
            // the format keeps template instances in a list of their own, after explicit geometries
            g.sort_by_key(|g| g["type"] == "GeometryInstance");
            o["geometry"] = Value::Array(g);
        }
        if let Some(a) = attrs_of(r, c) {
            o["attributes"] = a;
        }
        if r.gen_bool(0.3) {
            o["geographicalExtent"] = json!([r.gen_range(-1e3..0.0), r.gen_range(-1e3..0.0), r.gen_range(-1e3..0.0), r.gen_range(0.0..1e3), r.gen_range(0.0..1e3), r.gen_range(0.0..1e3)]);
        }
        if j == 0 && ids.len() > 1 {
            o["children"] = json!(ids[1..].to_vec());
            if r.gen_bool(0.2) {
                o["children_roles"] = json!(ids[1..].iter().map(|_| "role").collect::<Vec<_>>());
            }
        }
        if j > 0 {
            o["parents"] = json!([fid.clone()]);
        }
        objs.insert(id.clone(), o);
    }
    let mut f = json!({"type": "CityJSONFeature", "id": fid, "CityObjects": objs, "vertices": verts});
    if c.feature_appearance && r.gen_bool(0.6) {
        f["appearance"] = appearance(r, c.geom.n_materials, c.geom.n_textures, c.geom.n_uv);
    }
    f
}

pub fn schema_of(attrs: &[(String, K)], r: &mut StdRng) -> AttributeSchema {
    let mut order: Vec<usize> = (0..attrs.len()).collect();
    order.shuffle(r);
    let mut s = AttributeSchema::new();
    for (pos, i) in order.iter().enumerate() {
        s.insert(attrs[*i].0.clone(), (pos as u16, attrs[*i].1.col()));
    }
    s
}

pub fn parse_feature(v: &Value) -> CityJSONFeature {
    serde_json::from_value(v.clone()).expect("generated feature parses")
}
pub fn parse_header(v: &Value) -> CityJSON {
    serde_json::from_value(v.clone()).expect("generated header parses")
}

pub fn dataset(r: &mut StdRng, c: &DsCfg) -> Dataset {
    let mut header_json = base_header(r);
    if c.geom.n_templates > 0 {
        let mut g = c.geom.clone();
        g.n_templates = 0;
        g.null_p = 0.0;
        let nvt = 8;
        let t: Vec<Value> = (0..c.geom.n_templates).map(|_| geometry(r, &g, nvt)).collect();
        let vt: Vec<Value> = (0..nvt).map(|_| json!([finite(r), finite(r), finite(r)])).collect();
        header_json["geometry-templates"] = json!({"templates": t, "vertices-templates": vt});
    }
    let feats_json: Vec<Value> = (0..c.n).map(|i| feature(r, c, i)).collect();
    let schema = schema_of(&c.attrs, r);
    let sem_schema = if c.geom.sem_attrs.is_empty() { None } else { Some(schema_of(&c.geom.sem_attrs, r)) };
    let opts = HeaderWriterOptions {
        write_index: c.write_index,
        feature_count: if c.count { c.n as u64 } else { 0 },
        index_node_size: 16,
        attribute_indices: if c.index_attrs.is_empty() { None } else { Some(c.index_attrs.clone()) },
        geographical_extent: None,
    };
    Dataset {
        header: parse_header(&header_json),
        header_json,
        feats: feats_json.iter().map(parse_feature).collect(),
        feats_json,
        schema,
        sem_schema,
        opts,
    }
}

/// structural counters of a feature (evidence of workload diversity)
pub fn shape(v: &Value, out: &mut BTreeMap<String, u64>) {
    for o in v["CityObjects"].as_object().unwrap().values() {
        if let Some(g) = o.get("geometry").and_then(|g| g.as_array()) {
            for g in g {
                *out.entry(format!("geom_{}", g["type"].as_str().unwrap())).or_insert(0) += 1;
                for k in ["semantics", "material", "texture"] {
                    if g.get(k).is_some() {
                        *out.entry(format!("geom_with_{k}")).or_insert(0) += 1;
                    }
                }
            }
        }
        *out.entry("city_objects".into()).or_insert(0) += 1;
    }
}
