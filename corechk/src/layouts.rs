//! P04 layout geometry, P05 derived layouts, P22 serialization of layouts.
use crate::gen::*;
use crate::reads;
use mon::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::borrow::Cow;

fn up(x: usize, a: usize) -> usize {
    x.div_ceil(a) * a
}

/// The rules of `repr(C)` / `repr(C, packed(cap))`: offsets, size, alignment
fn c_rules(defs: &[PointAttributeDefinition], cap: usize) -> (Vec<usize>, usize, usize) {
    let (mut at, mut al) = (0, 1);
    let mut offs = vec![];
    for d in defs {
        let (s, a) = size_align(d.datatype());
        let a = a.min(cap);
        at = up(at, a);
        offs.push(at);
        at += s;
        al = al.max(a);
    }
    (offs, up(at, al), al)
}

/// Everything the interface says about the attributes of a layout agrees with the expected list
fn lookups(who: &str, l: &PointLayout, want: &[(PointAttributeDefinition, usize)], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let got: Vec<_> = l.attributes().collect();
    ensure!(got.len() == want.len(), format!("{who}:count"), "{who}: {} attributes instead of {}", got.len(), want.len());
    for (i, (d, off)) in want.iter().enumerate() {
        let (size, al) = size_align(d.datatype());
        ensure!(d.datatype().size() as usize == size && d.size() as usize == size, format!("{who}:datatype.size"), "{who}: {} has size {} / {}, not {size}", d, d.datatype().size(), d.size());
        ensure!(d.datatype().min_alignment() as usize == al, format!("{who}:datatype.min_alignment"), "{who}: {} has alignment {}, not {al}", d, d.datatype().min_alignment());
        for (how, m) in [("attributes", Some(got[i])), ("at", Some(l.at(i))), ("get_attribute", l.get_attribute(d)), ("get_attribute_by_name", l.get_attribute_by_name(d.name()))] {
            let Some(m) = m else { return violation(format!("{who}:{how}:none"), format!("{who}: {how} does not find {d}")) };
            ensure!(
                m.name() == d.name() && m.datatype() == d.datatype() && m.offset() as usize == *off && m.size() as usize == size && m.attribute_definition() == d,
                format!("{who}:{how}"), "{who}: {how}({i}) gives {m} of size {}, not {d} at {off} of size {size}", m.size()
            );
            ensure!(m.byte_range_within_point() == (*off..*off + size), format!("{who}:byte_range"), "{who}: byte range of {m} is {:?}", m.byte_range_within_point());
        }
        ensure!(l.offset_of(d) == Some(*off as u64), format!("{who}:offset_of"), "{who}: offset_of({d}) = {:?}, not {off}", l.offset_of(d));
        ensure!(l.index_of(d) == Some(i), format!("{who}:index_of"), "{who}: index_of({d}) = {:?}, not {i}", l.index_of(d));
        ensure!(l.has_attribute(d) && l.has_attribute_with_name(d.name()), format!("{who}:has"), "{who}: has_attribute({d}) is false");
        obs.ev("lookup");
        // same name, other datatype
        let other = prim_datatype(rng);
        if other != d.datatype() {
            let o = d.with_custom_datatype(other);
            ensure!(o.name() == d.name() && o.datatype() == other, format!("{who}:with_custom_datatype"), "{who}: {d} with datatype {other} is {o}");
            ensure!(
                !l.has_attribute(&o) && l.get_attribute(&o).is_none() && l.index_of(&o).is_none() && l.offset_of(&o).is_none(),
                format!("{who}:other datatype found"), "{who}: {o} is found in a layout that has {d}"
            );
            obs.ev("lookup_other_datatype");
        }
    }
    for n in ["", "Position3d", "NotThere", "Own"] {
        if !want.iter().any(|w| w.0.name() == n) {
            ensure!(!l.has_attribute_with_name(n) && l.get_attribute_by_name(n).is_none(), format!("{who}:foreign name found"), "{who}: {n:?} is found");
        }
    }
    Ok(())
}

fn geometry(who: &str, l: &PointLayout, obs: &mut Obs) -> Verdict {
    let mut r: Vec<(usize, usize, String)> = l.attributes().map(|a| (a.offset() as usize, a.size() as usize, a.to_string())).collect();
    r.sort();
    for w in r.windows(2) {
        ensure!(w[0].0 + w[0].1 <= w[1].0, format!("{who}:overlap"), "{who}: {} and {} overlap", w[0].2, w[1].2);
        obs.ev("disjoint_pair");
    }
    if let Some(x) = r.last() {
        ensure!(x.0 + x.1 <= l.size_of_point_entry() as usize, format!("{who}:outside of the record"), "{who}: {} of size {} ends behind the record of {} bytes", x.2, x.1, l.size_of_point_entry());
    }
    Ok(())
}

fn members(l: &PointLayout) -> Vec<(PointAttributeDefinition, usize)> {
    l.attributes().map(|a| (a.attribute_definition().clone(), a.offset() as usize)).collect()
}

fn p04(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let defs = rand_defs(rng, 0, 9, false);
    obs.step(|| format!("attributes {}", defs.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")));
    if defs.len() > 1 {
        obs.nontrivial();
    }
    let mode = rng.below(6);
    let l;
    match mode {
        0 | 1 => {
            // all at once, or one by one, by one rule
            let cap = if mode == 0 { usize::MAX } else { 1usize << rng.below(6) };
            let (offs, size, _) = c_rules(&defs, cap);
            obs.step(|| format!("cap {cap}, expecting {offs:?} size {size}"));
            let way = rng.below(3);
            let who = format!("{} {}", if mode == 0 { "natural" } else { "packed" }, ["at once", "one by one", "iterator"][way]);
            l = must(&who, || match (mode, way) {
                (0, 0) => PointLayout::from_attributes(&defs),
                (0, 1) => defs.iter().fold(PointLayout::default(), |mut l, d| { l.add_attribute(d.clone(), FieldAlignment::Default); l }),
                (0, _) => defs.iter().cloned().collect::<PointLayout>(),
                (_, 1) => defs.iter().fold(PointLayout::default(), |mut l, d| { l.add_attribute(d.clone(), FieldAlignment::Packed(cap as u64)); l }),
                _ => PointLayout::from_attributes_packed(&defs, cap as u64),
            })?;
            let want: Vec<_> = defs.iter().cloned().zip(offs.iter().copied()).collect();
            ensure!(members(&l).iter().map(|m| m.1).eq(offs.iter().copied()), format!("{who}:offsets"), "{who}: offsets {:?} instead of {offs:?}", members(&l).iter().map(|m| m.1).collect::<Vec<_>>());
            ensure!(l.size_of_point_entry() as usize == size, format!("{who}:size"), "{who}: size {} instead of {size}", l.size_of_point_entry());
            lookups(&who, &l, &want, rng, obs)?;
            geometry(&who, &l, obs)?;
            // the same record described by hand is the same layout
            let (_, _, al) = c_rules(&defs, cap);
            let hand: Vec<_> = want.iter().map(|(d, o)| d.at_offset_in_type(*o as u64)).collect();
            let h = must("from_members_and_alignment", || PointLayout::from_members_and_alignment(&hand, al as u64))?;
            ensure!(h == l, format!("{who}:differs from the members"), "{who}: {l} differs from the layout of its members with alignment {al}");
            obs.ev(if mode == 0 { "natural" } else { "packed" });
        }
        2 | 3 => {
            // placed by hand
            let (m, ta) = place_members(rng, &defs, mode == 2);
            obs.step(|| format!("members {} alignment {ta}", m.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")));
            l = must("from_members_and_alignment", || PointLayout::from_members_and_alignment(&m, ta))?;
            let end = m.iter().map(|m| (m.offset() + m.size()) as usize).max().unwrap_or(0);
            ensure!(l.size_of_point_entry() as usize == up(end, ta as usize), "members:size", "size {} instead of {}", l.size_of_point_entry(), up(end, ta as usize));
            let want: Vec<_> = m.iter().map(|m| (m.attribute_definition().clone(), m.offset() as usize)).collect();
            lookups("members", &l, &want, rng, obs)?;
            geometry("members", &l, obs)?;
            obs.ev("members");
            // overlapping or repeated members are refused
            if m.len() >= 2 {
                let i = rng.below(m.len());
                let j = (i + 1 + rng.below(m.len() - 1)) % m.len();
                let mut bad = m.clone();
                let (si, sj) = (m[i].size() as i64, m[j].size() as i64);
                // any offset of j from oi - sj + 1 to oi + si - 1 overlaps i
                let o = rng.irange((m[i].offset() as i64 - sj + 1).max(0), m[i].offset() as i64 + si - 1);
                bad[j] = m[j].attribute_definition().at_offset_in_type(o as u64);
                obs.step(|| format!("overlap: {} moved to {o}, into {}", m[j], m[i]));
                must_refuse("members:overlap", || PointLayout::from_members_and_alignment(&bad, ta))?;
                let mut bad = m.clone();
                let end = m.iter().map(|m| m.offset() + m.size()).max().unwrap();
                let dt = prim_datatype(rng);
                bad[j] = m[i].attribute_definition().with_custom_datatype(dt).at_offset_in_type(end);
                must_refuse("members:same name", || PointLayout::from_members_and_alignment(&bad, ta))?;
                obs.evn("bad_members_refused", 2);
            }
        }
        _ => {
            // grown step by step, by changing rules, from something placed by hand
            let k = rng.below(defs.len() + 1);
            let first = &defs[..k];
            let aligned = rng.bool();
            let (m, ta) = place_members(rng, first, aligned);
            let mut g = PointLayout::from_members_and_alignment(&m, ta);
            let mut before = members(&g);
            for d in &defs[k..] {
                let cap = if rng.bool() { None } else { Some(1u64 << rng.below(5)) };
                obs.step(|| format!("add {d} {cap:?} to {g}"));
                let old_size = g.size_of_point_entry();
                must("add_attribute", || g.add_attribute(d.clone(), match cap { None => FieldAlignment::Default, Some(c) => FieldAlignment::Packed(c) }))?;
                let now = members(&g);
                ensure!(now.len() == before.len() + 1 && now[..before.len()] == before[..] && now[before.len()].0 == *d, "add_attribute:earlier attributes", "after adding {d}: {now:?}, before {before:?}");
                let al = size_align(d.datatype()).1.min(cap.unwrap_or(u64::MAX).min(1 << 20) as usize);
                let off = now[before.len()].1;
                ensure!(off % al == 0, "add_attribute:alignment", "{d} added with {cap:?} is at {off}");
                ensure!(g.size_of_point_entry() >= old_size, "add_attribute:size shrinks", "size {} after {old_size}", g.size_of_point_entry());
                lookups("grown", &g, &now, rng, obs)?;
                geometry("grown", &g, obs)?;
                before = now;
                obs.ev("grown");
                // adding a name again is refused and changes nothing
                if rng.chance(1, 3) {
                    let i = rng.below(before.len());
                    let dt = prim_datatype(rng);
                    let again = if rng.bool() { before[i].0.clone() } else { before[i].0.with_custom_datatype(dt) };
                    let keep = g.clone();
                    must_refuse("add_attribute:same name", || g.add_attribute(again.clone(), FieldAlignment::Default))?;
                    ensure!(g == keep, "add_attribute:changed by a refusal", "{keep} became {g}");
                    obs.ev("add_refused");
                }
            }
            l = g;
        }
    }
    // comparisons
    let ms = members(&l);
    let same = l.clone();
    ensure!(l == same && l.compare_without_offsets(&same) && same.compare_without_offsets(&l), "compare:clone", "{l} differs from its clone");
    if !ms.is_empty() {
        let mut d: Vec<_> = ms.iter().map(|m| m.0.clone()).collect();
        rng.shuffle(&mut d);
        let other = if rng.bool() { PointLayout::from_attributes(&d) } else { PointLayout::from_attributes_packed(&d, 1) };
        ensure!(l.compare_without_offsets(&other) && other.compare_without_offsets(&l), "compare_without_offsets:reordered", "{l} and {other} have the same attributes");
        let same_members = members(&other) == ms;
        ensure!((l == other) <= same_members, "eq:different members", "{l} equals {other}");
        let i = rng.below(d.len());
        let mut e = d.clone();
        let what = rng.below(3);
        match what {
            0 => { e.remove(i); }
            1 => { let dt = prim_datatype(rng); if dt == e[i].datatype() { return Ok(()) } e[i] = e[i].with_custom_datatype(dt); }
            _ => { let dt = e[i].datatype(); e[i] = PointAttributeDefinition::custom(Cow::Borrowed("Replacement"), dt); }
        }
        let other = PointLayout::from_attributes(&e);
        ensure!(!l.compare_without_offsets(&other) && !other.compare_without_offsets(&l) && l != other, "compare:different", "{l} compares equal to {other}");
        obs.evn("compared", 3);
    }
    Ok(())
}

pub const P04: Property = Property {
    id: "P04",
    rule: "a random list of attributes over all datatypes (primitive, byte arrays, custom with own alignment), made a layout by the natural rule, by a packing of 1..32, by hand at random places or step by step under changing rules; offsets, size, lookups and comparisons are checked against the C layout rules, overlaps and repeated names have to be refused; non-trivial: two attributes or more",
    assumptions: &["for layouts grown under changing rules only the geometry is specified, not the exact size"],
    quick_cases: 1_200_000,
    thorough_cases: 30_000_000,
    case: p04,
    required_events: &["natural", "packed", "members", "grown", "bad_members_refused", "add_refused"],
};

// ---------------------------------------------------------------------------------------------

pub struct Desc {
    pub name: &'static str,
    pub size: usize,
    pub align: usize,
    pub fields: &'static [(&'static str, PointAttributeDataType, usize)],
    pub layout: fn() -> PointLayout,
    pub typed: Option<fn(&Desc, &mut Rng, &mut Obs) -> Verdict>,
}

/// Values of a struct without padding go through buffers as structs and come out as attributes, and
/// the other way round. The struct's bytes at the compiler's offsets are the truth.
pub fn whole<T: PointType>(d: &Desc, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = L::of(T::layout());
    let n = count(rng, obs, 6);
    let raw: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let mut v = vec![0; d.size];
            for (_, dt, o) in d.fields {
                let x = rand_value(rng, *dt);
                v[*o..*o + x.len()].copy_from_slice(&x);
            }
            v
        })
        .collect();
    obs.step(|| format!("{} values {raw:?}", d.name));
    let vals: Vec<T> = raw.iter().map(|b| bytemuck::pod_read_unaligned_any(b)).collect();
    let pts: Vec<Pt> = raw.iter().map(|b| d.fields.iter().map(|(_, dt, o)| b[*o..*o + size_align(*dt).0].to_vec()).collect()).collect();
    // in as structs, out as everything
    let how = rng.below(3);
    let mut v = must("VectorBuffer from structs", || match how {
        0 => vals.iter().copied().collect::<VectorBuffer>(),
        1 => { let mut b = VectorBuffer::new_from_layout(T::layout()); for x in &vals { b.view_mut::<T>().push_point(*x) } b }
        _ => { let mut b = VectorBuffer::new_from_layout(T::layout()); b.resize(n); for (i, x) in vals.iter().enumerate() { b.view_mut::<T>().set_at(i, *x) } b }
    })?;
    let mut h = must("HashMapBuffer from structs", || match how {
        0 => vals.iter().copied().collect::<HashMapBuffer>(),
        1 => { let mut b = HashMapBuffer::new_from_layout(T::layout()); for x in &vals { b.view_mut::<T>().push_point(*x) } b }
        _ => { let mut b = HashMapBuffer::new_from_layout(T::layout()); b.resize(n); for (i, x) in vals.iter().enumerate() { b.view_mut::<T>().set_at(i, *x) } b }
    })?;
    reads::read_all("VectorBuffer", &v, &l, &pts, rng, obs)?;
    reads::read_all("HashMapBuffer", &h, &l, &pts, rng, obs)?;
    // out as structs, after attribute-wise writes
    if n > 0 {
        let i = rng.below(n);
        let (k, dt) = { let k = rng.below(d.fields.len()); (k, d.fields[k].1) };
        let def = l.attrs[k].def.clone();
        let val = rand_value(rng, dt);
        let mut want = raw.clone();
        want[i][d.fields[k].2..d.fields[k].2 + val.len()].copy_from_slice(&val);
        must("set_attribute", || unsafe { v.set_attribute(&def, i, &val); h.set_attribute(&def, i, &val) })?;
        for (who, got) in [("VectorBuffer", v.view::<T>().into_iter().collect::<Vec<_>>()), ("HashMapBuffer", h.view::<T>().into_iter().collect::<Vec<_>>())] {
            ensure!(got.len() == n, format!("{who}:count"), "{who}: {} structs instead of {n}", got.len());
            for (j, g) in got.iter().enumerate() {
                let b = bytemuck::bytes_of(g);
                ensure!(b == &want[j][..], format!("{who}:struct after set_attribute"), "{who}: {} number {j} after writing {def} of {i}: {:?} instead of {:?}", d.name, b, want[j]);
                obs.ev("struct_read");
            }
        }
    }
    Ok(())
}

/// bytemuck::pod_read_unaligned wants AnyBitPattern, which is all a PointType has to offer
mod bytemuck {
    pub use ::bytemuck::*;
    pub fn pod_read_unaligned_any<T: AnyBitPattern>(b: &[u8]) -> T {
        ::bytemuck::pod_read_unaligned(b)
    }
}

#[cfg(any(feature = "all", feature = "P05"))]
fn p05(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let d = rng.pick(crate::gen_types::TYPES);
    obs.step(|| format!("{} size {} align {} fields {:?}", d.name, d.size, d.align, d.fields));
    if d.fields.len() > 1 {
        obs.nontrivial();
    }
    let l = must("layout", d.layout)?;
    let want: Vec<_> = d.fields.iter().map(|(n, dt, o)| (PointAttributeDefinition::custom(Cow::Borrowed(n), *dt), *o)).collect();
    ensure!(members(&l) == want, "derived:members", "{}: {l} but the struct has {:?}", d.name, d.fields);
    ensure!(l.size_of_point_entry() as usize == d.size, "derived:size", "{}: size {} but the struct has {}", d.name, l.size_of_point_entry(), d.size);
    let hand: Vec<_> = want.iter().map(|(d, o)| d.at_offset_in_type(*o as u64)).collect();
    ensure!(l == PointLayout::from_members_and_alignment(&hand, d.align as u64), "derived:alignment", "{}: the alignment of the record is not {}", d.name, d.align);
    lookups("derived", &l, &want, rng, obs)?;
    geometry("derived", &l, obs)?;
    // the layout that the rules make of the same attributes
    let defs: Vec<_> = want.iter().map(|w| w.0.clone()).collect();
    if d.name.ends_with("repr(C)") {
        ensure!(l == PointLayout::from_attributes(&defs), "derived:differs from from_attributes", "{}", d.name);
        obs.ev("repr_c");
    } else {
        obs.ev("repr_packed");
    }
    if let Some(f) = d.typed {
        f(d, rng, obs)?;
        obs.ev("typed_round_trip");
    }
    Ok(())
}

#[cfg(any(feature = "all", feature = "P05"))]
pub const P05: Property = Property {
    id: "P05",
    rule: "one of 198 generated structs (repr C, packed, packed(1..16), with and without C, align(4..32), all datatypes, builtin and own attribute names); its derived layout is compared with offset_of!, size_of and align_of, and random values go in as structs and out as attributes and back; non-trivial: two fields or more",
    assumptions: &["the structs are fixed at the time the harness is built"],
    quick_cases: 600_000,
    thorough_cases: 10_000_000,
    case: p05,
    required_events: &["repr_c", "repr_packed", "typed_round_trip", "struct_read"],
};

// ---------------------------------------------------------------------------------------------

fn json<T: serde::Serialize + serde::de::DeserializeOwned>(what: &str, x: &T, rng: &mut Rng, obs: &mut Obs) -> Result<T, Violation> {
    let way = rng.below(4);
    let who = format!("{what} through {}", ["a JSON string", "a JSON value", "pretty JSON bytes", "bincode"][way]);
    obs.step(|| who.clone());
    let r: Result<T, String> = must(&who, || match way {
        0 => serde_json::to_string(x).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| format!("{e} in {s}"))),
        1 => serde_json::to_value(x).map_err(|e| e.to_string()).and_then(|s| serde_json::from_value(s.clone()).map_err(|e| format!("{e} in {s}"))),
        2 => serde_json::to_vec_pretty(x).map_err(|e| e.to_string()).and_then(|s| serde_json::from_slice(&s).map_err(|e| e.to_string())),
        _ => bincode::serialize(x).map_err(|e| e.to_string()).and_then(|s| bincode::deserialize(&s).map_err(|e| e.to_string())),
    })?;
    obs.ev(["json_string", "json_value", "json_bytes", "bincode"][way]);
    r.map_err(|e| Violation { sig: format!("{who}:error"), detail: format!("{who}: {e}") })
}

fn p22(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut defs = rand_defs(rng, 0, 6, false);
    for d in defs.iter_mut() {
        if rng.chance(1, 8) {
            *d = PointAttributeDefinition::custom(Cow::Owned(format!("{}\"\\ \u{1F4CD}ä\n{}", d.name(), rng.below(100))), d.datatype());
        }
    }
    let pack = 1u64 << rng.below(5);
    let l = L::of(if rng.chance(1, 4) { PointLayout::from_attributes_packed(&defs, pack) } else { rand_layout_of(rng, &defs).0 });
    obs.step(|| format!("layout {}", l.show()));
    if l.attrs.len() > 1 {
        obs.nontrivial();
    }
    for m in l.layout.attributes() {
        let dt = json("datatype", &m.datatype(), rng, obs)?;
        ensure!(dt == m.datatype() && dt.size() == m.datatype().size() && dt.min_alignment() == m.datatype().min_alignment(), "datatype:changed", "{} became {dt}", m.datatype());
        let de = json("definition", m.attribute_definition(), rng, obs)?;
        ensure!(de == *m.attribute_definition() && de.name() == m.name() && de.datatype() == m.datatype(), "definition:changed", "{} became {de}", m.attribute_definition());
        let me = json("member", m, rng, obs)?;
        ensure!(me == *m && me.offset() == m.offset() && me.size() == m.size(), "member:changed", "{m} became {me}");
    }
    let r: PointLayout = json("layout", &l.layout, rng, obs)?;
    ensure!(r == l.layout && l.layout == r, "layout:changed", "{} became {r}", l.layout);
    ensure!(r.size_of_point_entry() as usize == l.size, "layout:size", "size {} became {}", l.size, r.size_of_point_entry());
    ensure!(r.compare_without_offsets(&l.layout), "layout:attributes", "{} became {r}", l.layout);
    let want: Vec<_> = l.attrs.iter().map(|a| (a.def.clone(), a.off)).collect();
    lookups("restored", &r, &want, rng, obs)?;
    // what is added later goes to the same place
    let add = PointAttributeDefinition::custom(Cow::Borrowed("AddedLater"), prim_datatype(rng));
    let (mut x, mut y) = (l.layout.clone(), r.clone());
    x.add_attribute(add.clone(), FieldAlignment::Default);
    y.add_attribute(add.clone(), FieldAlignment::Default);
    ensure!(x == y, "layout:grows differently", "with {add}: {x} and restored {y}");
    // a buffer read with the restored layout
    if l.size > 0 {
        let n = rng.below(4);
        let pts = l.rand_pts(rng, n);
        let mem = l.encode_all(&pts, rng);
        let b = must("ExternalMemoryBuffer", || ExternalMemoryBuffer::new(&mem[..], r.clone()))?;
        reads::read_some("buffer with the restored layout", &b, &L { layout: r.clone(), attrs: l.attrs.clone(), size: l.size }, &pts, rng, obs)?;
        obs.ev("buffer_read");
    }
    // a description whose alignment is no alignment is refused
    if rng.chance(1, 4) {
        let mut v = serde_json::to_value(&l.layout).unwrap();
        if let Some(a) = v.get_mut("memory_layout").and_then(|m| m.get_mut("align")) {
            *a = serde_json::json!(*rng.pick(&[0u64, 3, 6, 12, 100]));
            obs.step(|| format!("bad alignment {v}"));
            match attempt(|| serde_json::from_value::<PointLayout>(v.clone()).is_err()) {
                Ok(true) | Err(_) => obs.ev("bad_alignment_refused"),
                Ok(false) => return violation("layout:bad alignment accepted", format!("{v} is accepted")),
            }
        }
    }
    Ok(())
}

pub const P22: Property = Property {
    id: "P22",
    rule: "a random layout (natural, packed, placed; own names with quotes and non-ASCII letters) and every member, definition and datatype in it, through JSON (text, value, bytes) and bincode; the restored value has to be equal, give the same lookups, grow the same way and read a buffer the same way; non-trivial: two attributes or more",
    assumptions: &["serde_json and bincode are trusted"],
    quick_cases: 600_000,
    thorough_cases: 15_000_000,
    case: p22,
    required_events: &["json_string", "json_value", "json_bytes", "bincode", "buffer_read", "bad_alignment_refused"],
};
