//! P27 (tilesets and table headers survive a round trip through JSON)
use crate::io::*;
use iosrc::tiles3d::*;
use mon::{attempt, ensure, must, must_refuse, violation, Obs, Property, Rng, Verdict};
use nalgebra::{Matrix4, Point3, Vector3};
use pasture_core::math::AABB;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufReader, Read, Seek};

/// Equal documents; decimal numbers to 3 ulp, which the JSON library loses on the way
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x == y { return true }
            if (x.is_i64() || x.is_u64()) && (y.is_i64() || y.is_u64()) { return false }
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x - y).abs() <= 3.0 * f64::EPSILON * x.abs().max(y.abs()) + f64::from_bits(4)
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| alike(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).map_or(false, |b| alike(a, b))),
        _ => a == b,
    }
}

fn rand_string(rng: &mut Rng) -> String {
    const C: [char; 16] = ['a', 'Z', '0', '_', '.', '/', '"', '\\', '\n', '\t', '\u{1}', ' ', 'é', '→', '𝄞', '{'];
    match rng.below(4) {
        0 => (*rng.pick(&["POSITION", "RGB", "BATCH_ID", "Height", "0/0/0.pnts", "FLOAT", "byteOffset", "type"])).to_string(),
        _ => (0..rng.below(9)).map(|_| *rng.pick(&C)).collect(),
    }
}

fn num(rng: &mut Rng) -> f64 {
    loop {
        let x = match rng.below(8) {
            0 => 0.0,
            1 => rng.irange(-1000, 1000) as f64,
            2 => rng.irange(-1000, 1000) as f64 / 8.0,
            3 => f64::from_bits(rng.u64()),
            4 => rng.f64(-3.2, 3.2),
            5 => rng.f64(-1.0, 1.0) * 1e-300,
            6 => rng.f64(-1.0, 1.0) * 1e300,
            _ => rng.f64(-1e7, 1e7),
        };
        if x.is_finite() { return x }
    }
}

fn rand_json(rng: &mut Rng, depth: usize) -> Value {
    match rng.below(if depth == 0 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => json!(rng.bool()),
        2 => json!(rng.u64() >> rng.below(64)),
        3 => if rng.bool() { json!(rng.u64() as i64) } else { json!(num(rng)) },
        4 => json!(rand_string(rng)),
        5 => Value::Array((0..rng.below(4)).map(|_| rand_json(rng, depth - 1)).collect()),
        _ => {
            let n = rng.below(4);
            Value::Object((0..n).map(|_| (rand_string(rng), rand_json(rng, depth - 1))).collect())
        }
    }
}

fn offset(rng: &mut Rng) -> usize {
    match rng.below(3) {
        0 => 0,
        1 => rng.below(5000),
        _ => (rng.u64() >> rng.below(64)) as usize,
    }
}

/// The value of a feature table entry and what the format says it looks like
fn feature_value(rng: &mut Rng) -> (FeatureTableValue, Value) {
    match rng.below(3) {
        0 => loop {
            let v = rand_json(rng, 2);
            if v.is_array() || v.get("byteOffset").is_some() { continue }
            return (FeatureTableValue::SingleValue(v.clone()), v);
        },
        1 => {
            let n = rng.below(5);
            let a: Vec<Value> = (0..n).map(|_| rand_json(rng, 2)).collect();
            (FeatureTableValue::Array(a.clone()), Value::Array(a))
        }
        _ => {
            let r = FeatureTableDataReference { byte_offset: offset(rng), component_type: if rng.bool() { Some(rand_string(rng)) } else { None } };
            let mut o = Map::new();
            o.insert("byteOffset".into(), json!(r.byte_offset));
            if let Some(c) = &r.component_type { o.insert("componentType".into(), json!(c)); }
            (FeatureTableValue::DataReference(r), Value::Object(o))
        }
    }
}

fn batch_value(rng: &mut Rng) -> (BatchTableEntry, Value) {
    if rng.bool() {
        let n = rng.below(5);
        let a: Vec<Value> = (0..n).map(|_| rand_json(rng, 2)).collect();
        (BatchTableEntry::ArrayData(a.clone()), Value::Array(a))
    } else {
        let r = BatchTableDataReference { byte_offset: offset(rng), component_type: rand_string(rng), scalar_or_vector_type: rand_string(rng) };
        let v = json!({"byteOffset": r.byte_offset, "componentType": r.component_type, "type": r.scalar_or_vector_type});
        (BatchTableEntry::DataReference(r), v)
    }
}

/// The bytes of a header that was written for `pos`
fn check_header(what: &str, bytes: &[u8], want: &Value, pos: usize) -> Verdict {
    let Ok(text) = std::str::from_utf8(bytes) else { return violation(format!("{what}:text"), "no UTF-8") };
    ensure!((pos + bytes.len()) % 8 == 0, format!("{what}:boundary"), "a header of {} bytes at {pos} ends at {}", bytes.len(), pos + bytes.len());
    let body = text.trim_end_matches(' ');
    ensure!(text.len() - body.len() < 8, format!("{what}:padding"), "{} bytes of padding", text.len() - body.len());
    match serde_json::from_str::<Value>(text) {
        Ok(v) => ensure!(alike(&v, want), format!("{what}:document"), "wrote {text:?}, want {want}"),
        Err(e) => return violation(format!("{what}:document"), format!("{text:?}: {e}")),
    }
    Ok(())
}

fn headers(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let feature = rng.bool();
    let pos = match rng.below(3) { 0 => 0, 1 => 28, _ => rng.below(5000) };
    let n = rng.below(7);
    let mut f = FeatureTableHeader::new();
    let mut b = BatchTableHeader::new();
    let mut want = Map::new();
    for _ in 0..n {
        let k = rand_string(rng);
        let v = if feature { let (x, v) = feature_value(rng); f.insert(k.clone(), x); v } else { let (x, v) = batch_value(rng); b.insert(k.clone(), x); v };
        want.insert(k, v);
    }
    let want = Value::Object(want);
    let what = if feature { "feature table" } else { "batch table" };
    obs.step(|| format!("{what} at {pos}: {want}"));
    let sink = if rng.chance(1, 10) { let at = rng.below(100); Sink::failing(rng, at) } else { Sink::new(rng) };
    let out = sink.clone();
    let r = must("ser_header", || if feature { ser_feature_table_header(sink, &f, pos).is_ok() } else { ser_batch_table_header(sink, &b, pos).is_ok() })?;
    if out.failed() {
        ensure!(!r, format!("{what}:lost output"), "the output failed, no error was reported");
        obs.ev("output_failed");
        return Ok(());
    }
    ensure!(r, format!("{what}:error"), "writing {want} is an error");
    let bytes = out.bytes();
    check_header(what, &bytes, &want, pos)?;

    // read back, with something behind it
    let mut all = bytes.clone();
    let tail = rng.bytes(9);
    all.extend(&tail);
    let mut size = bytes.len();
    if !feature && rng.chance(1, 4) {
        // sizes that leave out the padding, as some programs write them
        size = std::str::from_utf8(&bytes).unwrap().trim_end_matches(' ').len();
        obs.ev("size_without_padding");
    }
    if rng.chance(1, 10) {
        // not there completely
        let at = rng.below(size);
        all.truncate(at);
        let src = BufReader::new(Source::new(all, rng));
        let ok = must("deser_header", || if feature { deser_feature_table_header(src, size, pos).is_ok() } else { deser_batch_table_header(src, size, pos).is_ok() })?;
        ensure!(!ok, format!("{what}:truncated"), "{at} of {size} bytes were accepted");
        obs.ev("truncated");
        return Ok(());
    }
    let cap = *rng.pick(&[1usize, 7, 64, 8192]);
    let mut src = BufReader::with_capacity(cap, Source::new(all, rng));
    let again = must("deser_header", || if feature {
        deser_feature_table_header(&mut src, size, pos).map(|h| (h.iter().map(|(k, v)| (k.clone(), Value::from(v))).collect::<Map<_, _>>(), exact_f(&h, &f))).map_err(|e| e.to_string())
    } else {
        deser_batch_table_header(&mut src, size, pos).map(|h| (h.iter().map(|(k, v)| (k.clone(), Value::from(v.clone()))).collect::<Map<_, _>>(), exact_b(&h, &b))).map_err(|e| e.to_string())
    })?;
    match again {
        Err(e) => return violation(format!("{what}:read back"), format!("{want} can't be read back: {e}")),
        Ok((m, kinds)) => {
            ensure!(alike(&Value::Object(m.clone()), &want) && kinds, format!("{what}:read back"), "{want} reads back as {m:?}, same kinds of entries: {kinds}");
        }
    }
    let mut rest = vec![];
    let _ = src.read_to_end(&mut rest);
    ensure!(rest == tail, format!("{what}:position"), "after the header the reader is {} bytes before the end, should be {}", rest.len(), tail.len());
    obs.ev(if feature { "feature_table" } else { "batch_table" });
    obs.evn("entries", n as u64);
    if n > 0 { obs.nontrivial() }
    Ok(())
}

fn exact_f(a: &FeatureTableHeader, b: &FeatureTableHeader) -> bool {
    use std::mem::discriminant as d;
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| d(v) == d(w)))
}
fn exact_b(a: &BatchTableHeader, b: &BatchTableHeader) -> bool {
    use std::mem::discriminant as d;
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| d(v) == d(w)))
}

/// Headers that are none
fn bad_headers(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let texts = ["", "{", "[]", "3", "\"x\"", "null", "{\"a\":}", "{\"a\":{\"byteOffset\":-1}}", "{\"a\":{\"byteOffset\":\"x\"}}", "{\"a\":1} x", "{\"a\":{\"byteOffset\":1.5}}"];
    let batch_only = ["{\"a\":3}", "{\"a\":null}", "{\"a\":{}}", "{\"a\":{\"byteOffset\":3}}", "{\"a\":{\"byteOffset\":3,\"componentType\":\"FLOAT\"}}", "{\"a\":\"text\"}"];
    let feature = rng.bool();
    let t = if feature || rng.bool() { *rng.pick(&texts) } else { *rng.pick(&batch_only) };
    let mut b = t.as_bytes().to_vec();
    if rng.chance(1, 8) { b = b"{\"\xff\":[]}".to_vec() }
    while b.len() % 8 != 0 { b.push(b' ') }
    let size = b.len();
    obs.step(|| format!("bad header {t:?} feature {feature}"));
    let src = BufReader::new(Source::new(b, rng));
    let ok = must("deser_header", || if feature { deser_feature_table_header(src, size, 0).is_ok() } else { deser_batch_table_header(src, size, 0).is_ok() })?;
    ensure!(!ok, "bad header", "accepted as {} table: {t:?}", if feature { "feature" } else { "batch" });
    obs.ev("bad_header");

    // arrays of numbers
    let n = *rng.pick(&[3usize, 4, 2, 5, 0]);
    let a: Vec<Value> = (0..n).map(|_| match rng.below(8) { 0 => json!("1"), 1 => json!(rng.range(250, 260)), 2 => json!(-1), 3 => json!(num(rng)), _ => json!(rng.below(256)) }).collect();
    let f: Option<Vec<f64>> = a.iter().map(|v| v.as_f64()).collect();
    let v3 = must("json_arr_to_vec3f64", || json_arr_to_vec3f64(&a))?;
    match (&f, n) {
        (Some(f), 3) => ensure!(matches!(v3, Ok(v) if v.as_slice() == &f[..]), "json_arr_to_vec3f64", "{a:?} gives {v3:?}"),
        _ => ensure!(v3.is_err(), "json_arr_to_vec3f64", "{a:?} gives {v3:?}"),
    }
    let v3 = must("json_arr_to_vec3f32", || json_arr_to_vec3f32(&a))?;
    match (&f, n) {
        (Some(f), 3) => ensure!(matches!(v3, Ok(v) if (0..3).all(|i| v[i] == f[i] as f32)), "json_arr_to_vec3f32", "{a:?} gives {v3:?}"),
        _ => ensure!(v3.is_err(), "json_arr_to_vec3f32", "{a:?} gives {v3:?}"),
    }
    let v4 = must("json_arr_to_vec4u8", || json_arr_to_vec4u8(&a))?;
    let u: Option<Vec<u8>> = a.iter().map(|v| v.as_u64().and_then(|x| u8::try_from(x).ok())).collect();
    match (&u, n) {
        (Some(u), 4) => ensure!(matches!(v4, Ok(v) if v.as_slice() == &u[..]), "json_arr_to_vec4u8", "{a:?} gives {v4:?}"),
        _ => ensure!(v4.is_err(), "json_arr_to_vec4u8", "{a:?} gives {v4:?}"),
    }
    obs.ev("number_arrays");
    Ok(())
}

// ---------------------------------------------------------------- tilesets

fn vec3(rng: &mut Rng) -> Vector3<f64> {
    Vector3::new(num(rng), num(rng), num(rng))
}

/// A bounding volume and what the specification says it looks like
fn volume(rng: &mut Rng) -> Result<(BoundingVolume, Value), mon::Violation> {
    Ok(match rng.below(4) {
        0 => {
            let a: Vec<f64> = (0..6).map(|_| num(rng)).collect();
            let r = BoundingRegion::new(a[0], a[1], a[2], a[3], a[4], a[5]);
            ensure!(r.west() == a[0] && r.south() == a[1] && r.east() == a[2] && r.north() == a[3] && r.min_height() == a[4] && r.max_height() == a[5], "BoundingRegion", "{a:?} gives {r:?}");
            (BoundingVolume::Region(r), json!({ "region": a }))
        }
        1 => {
            let (c, x, y, z) = (vec3(rng), vec3(rng), vec3(rng), vec3(rng));
            let b = BoundingBox::new(c, x, y, z);
            ensure!(b.center() == c && b.x() == x && b.y() == y && b.z() == z, "BoundingBox", "{c:?} {x:?} {y:?} {z:?} gives {b:?}");
            let a: Vec<f64> = [c, x, y, z].iter().flat_map(|v| v.iter().copied().collect::<Vec<_>>()).collect();
            (BoundingVolume::Box(b), json!({ "box": a }))
        }
        2 => {
            // of an axis-aligned box
            let lo = Vector3::new(rng.f64(-1e6, 1e6), rng.f64(-1e6, 1e6), rng.f64(-1e6, 1e6));
            let e = Vector3::new(rng.f64(0.0, 1e3), rng.f64(0.0, 1e3), if rng.bool() { 0.0 } else { rng.f64(0.0, 1e3) });
            let hi = lo + e;
            let aabb = AABB::from_min_max(Point3::from(lo), Point3::from(hi));
            let b: BoundingBox = if rng.bool() { aabb.into() } else { (&aabb).into() };
            let t = 1e-9 * 1e6;
            let mid = (lo + hi) / 2.0;
            let h = (hi - lo) / 2.0;
            let d = |i: usize, v: Vector3<f64>| (0..3).all(|k| (v[k] - if k == i { h[i] } else { 0.0 }).abs() <= t);
            ensure!((b.center() - mid).norm() <= t && d(0, b.x()) && d(1, b.y()) && d(2, b.z()), "BoundingBox of AABB", "{aabb:?} gives {b:?}");
            let a: Vec<f64> = [b.center(), b.x(), b.y(), b.z()].iter().flat_map(|v| v.iter().copied().collect::<Vec<_>>()).collect();
            (BoundingVolume::Box(b), json!({ "box": a }))
        }
        _ => {
            let (c, r) = (vec3(rng), num(rng).abs());
            let s = BoundingSphere::new(c, r);
            ensure!(s.center() == c && s.radius() == r, "BoundingSphere", "{c:?} {r} gives {s:?}");
            (BoundingVolume::Sphere(s), json!({ "sphere": [c.x, c.y, c.z, r] }))
        }
    })
}

fn tileset(rng: &mut Rng, depth: usize, count: &mut u64) -> Result<(Tileset, Value), mon::Violation> {
    *count += 1;
    let mut o = Map::new();
    let g = num(rng).abs();
    let (v, vj) = volume(rng)?;
    o.insert("geometricError".into(), json!(g));
    o.insert("boundingVolume".into(), vj);
    let mut b = TilesetBuilder::default().geometric_error(g).bounding_volume(v);
    let mut t = Tileset { geometric_error: g, bounding_volume: v, ..Default::default() };
    if rng.bool() {
        let r = if rng.bool() { Refinement::Add } else { Refinement::Replace };
        o.insert("refine".into(), json!(if r == Refinement::Add { "ADD" } else { "REPLACE" }));
        b = b.refinement(r);
        t.refinement = Some(r);
    }
    if rng.chance(1, 3) {
        let (v, vj) = volume(rng)?;
        o.insert("viewerRequestVolume".into(), vj);
        b = b.viewer_request_volume(v);
        t.viewer_request_volume = Some(v);
    }
    if rng.chance(2, 3) {
        let uri = rand_string(rng);
        let mut c = Map::new();
        c.insert("uri".into(), json!(uri));
        let v = if rng.bool() { let (v, vj) = volume(rng)?; c.insert("boundingVolume".into(), vj); Some(v) } else { None };
        o.insert("content".into(), Value::Object(c));
        b = b.content(uri.clone(), v);
        t.content = Some(TilesetContent { bounding_volume: v, uri });
    }
    if rng.chance(1, 3) {
        // 16 numbers, column by column
        let a: Vec<f64> = (0..16).map(|_| num(rng)).collect();
        let m = Matrix4::from_fn(|r, c| a[c * 4 + r]);
        o.insert("transform".into(), json!(a));
        b = b.transform(m);
        t.transform = Some(m);
    }
    let n = if depth == 0 { 0 } else { rng.below(4) };
    let mut cj = vec![];
    let mut group = vec![];
    for _ in 0..n {
        let (c, j) = tileset(rng, depth - 1, count)?;
        cj.push(j);
        t.children.push(c.clone());
        group.push(c);
        if rng.bool() {
            let g = std::mem::take(&mut group);
            b = if g.len() == 1 { b.add_child(g.into_iter().next().unwrap()) } else { b.add_children(g) };
        }
    }
    b = b.add_children(group);
    if !cj.is_empty() { o.insert("children".into(), Value::Array(cj)); }
    let built: Tileset = b.into();
    ensure!(built == t, "TilesetBuilder", "the builder gives {built:?}, want {t:?}");
    Ok((t, Value::Object(o)))
}

/// Takes apart a document in ways that are no tileset any more
fn spoil(v: &mut Value, rng: &mut Rng) -> &'static str {
    let root = &mut v["root"];
    match rng.below(8) {
        0 => { root.as_object_mut().unwrap().remove("boundingVolume"); "root without bounding volume" }
        1 => { root.as_object_mut().unwrap().remove("geometricError"); "root without geometric error" }
        2 => { root["refine"] = json!("NEVER"); "unknown refinement" }
        3 => { root["boundingVolume"] = json!({ "box": [1, 2, 3] }); "box of three numbers" }
        4 => { root["content"] = json!({}); "content without uri" }
        5 => { root["boundingVolume"] = json!({ "cone": [1, 2, 3] }); "unknown volume" }
        6 => { v.as_object_mut().unwrap().remove("asset"); "no asset" }
        _ => { v.as_object_mut().unwrap().remove("root"); "no root" }
    }
}

fn tilesets(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut count = 0;
    let depth = rng.below(4);
    let (root, rj) = tileset(rng, depth, &mut count)?;
    let mut asset = Map::new();
    let version = if rng.bool() { TilesetAssetInfo::default().version } else { rand_string(rng) };
    asset.insert("version".into(), json!(version));
    let tv = if rng.bool() { Some(rand_string(rng)) } else { None };
    if let Some(t) = &tv { asset.insert("tilesetVersion".into(), json!(t)); }
    let g = num(rng).abs();
    let mut o = Map::new();
    o.insert("asset".into(), Value::Object(asset));
    o.insert("geometricError".into(), json!(g));
    o.insert("root".into(), rj);
    let props: Option<HashMap<String, TilesetProperty>> = if rng.bool() {
        let n = rng.below(4);
        let m: HashMap<String, TilesetProperty> = (0..n).map(|_| (rand_string(rng), TilesetProperty { minimum: num(rng), maximum: num(rng) })).collect();
        o.insert("properties".into(), Value::Object(m.iter().map(|(k, p)| (k.clone(), json!({ "minimum": p.minimum, "maximum": p.maximum }))).collect()));
        Some(m)
    } else {
        None
    };
    let t = RootTileset { asset: TilesetAssetInfo { version, tileset_version: tv }, properties: props, geometric_error: g, root };
    let mut want = Value::Object(o);
    obs.step(|| format!("{want}"));

    let doc = must("serialize", || serde_json::to_value(&t))?;
    let Ok(mut doc) = doc else { return violation("tileset:serialize", format!("{doc:?}")) };
    if doc.get("properties") == Some(&Value::Null) { doc.as_object_mut().unwrap().remove("properties"); }
    ensure!(alike(&doc, &want), "tileset:document", "wrote {doc}, want {want}");
    // exactly, without text
    let back: Result<RootTileset, _> = must("deserialize", || serde_json::from_value(doc.clone()))?;
    ensure!(matches!(&back, Ok(b) if *b == t), "tileset:from_value", "{t:?} comes back as {back:?}");
    // as text
    let sink = Sink::new(rng);
    let out = sink.clone();
    let pretty = rng.bool();
    let w = must("serialize", || if pretty { serde_json::to_writer_pretty(sink, &t) } else { serde_json::to_writer(sink, &t) })?;
    ensure!(w.is_ok(), "tileset:serialize", "{w:?}");
    let text = out.bytes();
    let src = BufReader::new(Source::new(text, rng));
    let back: Result<RootTileset, _> = must("deserialize", || serde_json::from_reader(src))?;
    let same = back.as_ref().ok().and_then(|b| serde_json::to_value(b).ok()).map_or(false, |mut v| {
        if v.get("properties") == Some(&Value::Null) { v.as_object_mut().unwrap().remove("properties"); }
        alike(&v, &want)
    });
    ensure!(same, "tileset:text", "{t:?} comes back as {back:?}");
    obs.evn("tiles", count);
    if count > 1 { obs.ev("tree") }

    if rng.chance(1, 4) {
        // what other programs add is skipped
        want["root"]["extras"] = rand_json(rng, 2);
        want["extensionsUsed"] = json!(["x"]);
        want["asset"]["generator"] = json!("someone");
        let back: Result<RootTileset, _> = must("deserialize", || serde_json::from_value(want.clone()))?;
        ensure!(matches!(&back, Ok(b) if *b == t), "tileset:extras", "{want} is read as {back:?}");
        obs.ev("extras");
    }
    if rng.chance(1, 4) {
        let why = spoil(&mut want, rng);
        let back: Result<RootTileset, _> = must("deserialize", || serde_json::from_value(want.clone()))?;
        ensure!(back.is_err(), "tileset:bad document", "{why}: {want} is read as {back:?}");
        obs.ev("bad_document");
    }
    if rng.chance(1, 20) {
        let g = -num(rng).abs().max(1e-300);
        must_refuse("geometric_error", || TilesetBuilder::default().geometric_error(g))?;
        obs.ev("negative_error_refused");
    }
    obs.nontrivial();
    Ok(())
}

pub fn p27(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    match rng.below(8) {
        0 => bad_headers(rng, obs),
        1..=4 => headers(rng, obs),
        _ => tilesets(rng, obs),
    }
}

pub const P27: Property = Property {
    id: "P27",
    rule: "random feature and batch table headers (all kinds of entries, arbitrary keys and texts, any file position) written to sinks that take few bytes at a time or fail, and read back from sources with data behind them; random tileset trees built by the builder, compared with the document the specification prescribes and read back; documents and headers that are none; non-trivial: a header with entries or a tileset",
    assumptions: &[
        "numbers are finite; decimal numbers keep 3 ulp through text, as the JSON library gives them",
        "single values of a feature table are no arrays and no objects with a byteOffset, which would be another kind of entry",
    ],
    quick_cases: 150_000,
    thorough_cases: 8_000_000,
    case: p27,
    required_events: &["feature_table", "batch_table", "entries", "truncated", "size_without_padding", "output_failed", "bad_header", "number_arrays", "tiles", "tree", "extras", "bad_document", "negative_error_refused"],
};
