//! P06 (attribute conversion), P07 (layout conversion), P08 (custom mappings), P11 (untyped points)
use crate::bufs::*;
use crate::gen::*;
pub use crate::num::*;
use crate::reads::*;
use crate::with_prim;
use mon::{attempt, ensure, must, must_refuse, violation, Obs, Property, Rng, Verdict};
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::layout::*;

// ---------------------------------------------------------------- P06

fn convert_one(f: AttributeConversionFn, from: D, to: D, v: &[u8], rng: &mut Rng) -> Verdict {
    let (fs, ts) = (size_align(from).0, size_align(to).0);
    // at any alignment, with a guard around the target
    let (a, b) = (rng.below(9), rng.below(9));
    let mut src = vec![0x5A; a];
    src.extend_from_slice(v);
    let mut dst = vec![0xC3; b + ts + 9];
    must("converter", || unsafe { f(&src[a..a + fs], &mut dst[b..b + ts]) })?;
    let want = reference(from, to, v).unwrap();
    ensure!(same(to, &dst[b..b + ts], &want), format!("convert {from}->{to}"), "{from} {v:?} as {to}: got {:?}, want {want:?}", &dst[b..b + ts]);
    ensure!(dst[..b].iter().chain(&dst[b + ts..]).all(|x| *x == 0xC3), format!("convert {from}->{to}:guard"), "conversion wrote next to its target");
    Ok(())
}

pub fn p06(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let from = *rng.pick(&DT);
    let to = *rng.pick(&DT);
    let name = format!("A{}", rng.below(5));
    let fd = PointAttributeDefinition::custom(name.clone().into(), from);
    let td = PointAttributeDefinition::custom(name.into(), to);
    if from == to {
        obs.step(|| format!("{from} to itself"));
        let c = must("get_converter_for_attributes", || get_converter_for_attributes(&fd, &td))?;
        ensure!(c.is_none(), "converter for equal attributes", "a converter for {from} to itself");
        let v = rand_value(rng, from);
        let mut d = vec![0; v.len()];
        must("convert_unit", || unsafe { convert_unit(&v, &mut d) })?;
        ensure!(v == d, "convert_unit", "convert_unit of {v:?} gives {d:?}");
        obs.ev("unit");
        return Ok(());
    }
    if !convertible(from, to) {
        obs.step(|| format!("{from} to {to} is impossible"));
        for r in [attempt(|| get_generic_converter(from, to)), attempt(|| get_converter_for_attributes(&fd, &td))] {
            ensure!(!matches!(r, Ok(Some(_))), "impossible conversion", "a converter from {from} to {to} is offered");
        }
        // and with types that are no numbers
        let raw = D::ByteArray(size_align(from).0 as u64);
        ensure!(!matches!(attempt(|| get_generic_converter(from, raw)), Ok(Some(_))), "impossible conversion", "a converter from {from} to {raw} is offered");
        obs.ev("impossible");
        return Ok(());
    }
    let f = must("get_converter_for_attributes", || get_converter_for_attributes(&fd, &td))?;
    let g = must("get_generic_converter", || get_generic_converter(from, to))?;
    let (Some(f), Some(g)) = (f, g) else { return violation("no converter", format!("no converter from {from} to {to}")) };
    let w = scalar(from).unwrap();
    if !cfg!(miri) && (w.2 == 1 || (w.2 == 2 && rng.chance(1, 20))) {
        // every value of a narrow type, in every component
        obs.step(|| format!("{from} to {to}: all values"));
        let n = 1u32 << (8 * w.2);
        let shift = rng.below(7) as u32;
        for x in 0..n {
            let v: Vec<u8> = (0..comps(from)).flat_map(|k| (x.wrapping_add(shift * k as u32)).to_le_bytes()[..w.2].to_vec()).collect();
            convert_one(f, from, to, &v, rng)?;
        }
        obs.evn("exhaustive_values", n as u64);
    }
    for _ in 0..20 {
        let turn = rng.bool();
        let v = if turn { turning_value(rng, from) } else { rand_value(rng, from) };
        if turn { obs.ev("turning values") }
        obs.step(|| format!("{from} to {to}: {v:?}"));
        convert_one(f, from, to, &v, rng)?;
        convert_one(g, from, to, &v, rng)?;
        obs.evn("values", 1);
    }
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- P07, P08

/// Mapping of one target attribute in the model
#[derive(Clone, Debug)]
struct Map {
    src: usize,
    /// transformation key, applied to the source value?
    tf: Option<(Vec<u8>, bool)>,
}

fn scramble(key: &[u8], v: &mut [u8]) {
    for (k, x) in v.iter_mut().enumerate() {
        *x = x.wrapping_mul(3) ^ key[k % key.len()];
    }
}

fn map_value(l: &L, t: &L, m: &Map, ti: usize, p: &Pt) -> Vec<u8> {
    let (fd, td) = (l.attrs[m.src].def.datatype(), t.attrs[ti].def.datatype());
    let mut v = p[m.src].clone();
    if let Some((k, true)) = &m.tf {
        scramble(k, &mut v);
    }
    let mut v = reference(fd, td, &v).unwrap();
    if let Some((k, false)) = &m.tf {
        scramble(k, &mut v);
    }
    v
}

/// Compares converted attributes up to NaN, by copying the observed NaN into the expectation
fn settle<'a, B: BorrowedBuffer<'a>>(who: &str, b: &B, t: &L, want: &mut [Pt]) -> Verdict {
    ensure!(b.len() == want.len(), format!("{who}:len"), "{who}: target has {} points, want {}", b.len(), want.len());
    for (i, p) in want.iter_mut().enumerate() {
        for (ai, a) in t.attrs.iter().enumerate() {
            let mut d = vec![0; a.size];
            must(&format!("{who}:get_attribute"), || b.get_attribute(&a.def, i, &mut d))?;
            ensure!(same(a.def.datatype(), &d, &p[ai]), format!("{who}"), "{who}: target attribute {} of point {i}: got {d:?}, want {:?}", a.def, p[ai]);
            p[ai] = d;
        }
    }
    Ok(())
}

/// A target layout for a source layout: subset, order, datatypes, extra attributes
fn target_of(l: &L, rng: &mut Rng, obs: &mut Obs, extra: bool) -> L {
    let mut defs = vec![];
    for a in &l.attrs {
        if rng.chance(5, 6) {
            let d = a.def.datatype();
            let mut to = d;
            if rng.chance(2, 3) {
                to = *rng.pick(&DT);
                if !convertible(d, to) {
                    to = d;
                }
            }
            defs.push(a.def.with_custom_datatype(to));
        }
    }
    if extra {
        for d in rand_defs(rng, 1, 3, false) {
            if !l.attrs.iter().any(|a| a.def.name() == d.name()) {
                defs.push(d);
            }
        }
    }
    if rng.bool() {
        rng.shuffle(&mut defs);
    }
    let (t, how) = rand_layout_of(rng, &defs);
    let t = L::of(t);
    obs.step(|| format!("target layout {how} {}", t.show()));
    t
}

fn default_maps(l: &L, t: &L) -> Vec<Option<Map>> {
    t.attrs.iter().map(|a| l.attrs.iter().position(|s| s.def.name() == a.def.name()).map(|src| Map { src, tf: None })).collect()
}

fn expected(l: &L, t: &L, maps: &[Option<Map>], src: &[Pt], old: &[Pt], at: usize) -> Vec<Pt> {
    let mut want = old.to_vec();
    for (k, p) in src.iter().enumerate() {
        for (ti, m) in maps.iter().enumerate() {
            if let Some(m) = m {
                want[at + k][ti] = map_value(l, t, m, ti, p);
            }
        }
    }
    want
}

/// Runs one conversion between buffers of all kinds and compares the target
fn run_conversion(conv: &BufferLayoutConverter, l: &L, t: &L, maps: &[Option<Map>], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = count(rng, obs, 8);
    let m = l.rand_pts(rng, n);
    obs.step(|| format!("source points {m:?}"));
    let win = rng.subrange(n);
    // way: convert into a new buffer, into an existing one, or a range of it
    let way = rng.below(4);
    macro_rules! with_source {
        ($s:ident => $body:expr) => {
            match rng.below(5) {
                0 => { let o = vbuf(l, &m, rng); let $s = (&o, &m[..]); obs.ev("src_interleaved"); $body }
                1 => { let o = hbuf(l, &m, rng); let $s = (&o, &m[..]); obs.ev("src_columnar"); $body }
                2 => { let d = l.encode_all(&m, rng); let o = ExternalMemoryBuffer::new(d.as_slice(), l.layout.clone()); let $s = (&o, &m[..]); obs.ev("src_external"); $body }
                3 => { let o = vbuf(l, &m, rng); let o = o.slice(win.clone()); let $s = (&o, &m[win.clone()]); obs.ev("src_slice"); $body }
                _ => { let o = hbuf(l, &m, rng); let o = o.slice(win.clone()); let $s = (&o, &m[win.clone()]); obs.ev("src_slice"); $body }
            }
        };
    }
    with_source!(s => {
        let (sb, sm) = s;
        let k = sm.len();
        if way == 0 {
            let old: Vec<Pt> = (0..k).map(|_| t.zero()).collect();
            let mut want = expected(l, t, maps, sm, &old, 0);
            if rng.bool() {
                let o: VectorBuffer = must("convert", || conv.convert(sb))?;
                settle("convert", &o, t, &mut want)?;
                read_all("convert", &o, t, &want, rng, obs)?;
            } else {
                let o: HashMapBuffer = must("convert", || conv.convert(sb))?;
                settle("convert", &o, t, &mut want)?;
                read_all("convert", &o, t, &want, rng, obs)?;
            }
            obs.ev("convert");
        } else {
            let extra = rng.below(4);
            let lead = if way == 1 { 0 } else { rng.below(4) };
            let (sr, tr) = if way == 1 { (0..k, 0..k) } else { let r = rng.subrange(k); let q = r.len(); (r, lead..lead + q) };
            let old = t.rand_pts(rng, k + lead + extra);
            obs.step(|| format!("into {} existing points, {sr:?} to {tr:?}", old.len()));
            let mut want = expected(l, t, maps, &sm[sr.clone()], &old, tr.start);
            macro_rules! go {
                ($o:expr, $at:expr) => {{
                    let o = $o;
                    if way == 1 { must("convert_into", || conv.convert_into(sb, o))? } else { must("convert_into_range", || conv.convert_into_range(sb, sr.clone(), o, tr.clone()))? }
                    settle("convert_into", o, t, &mut want[$at])?;
                }};
            }
            match rng.below(5) {
                0 => { let mut o = vbuf(t, &old, rng); go!(&mut o, ..); read_all("convert_into", &o, t, &want, rng, obs)? }
                1 => { let mut o = hbuf(t, &old, rng); go!(&mut o, ..); read_all("convert_into", &o, t, &want, rng, obs)? }
                2 if !t.attrs.is_empty() => {
                    let mut d = t.encode_all(&old, rng);
                    { let mut o = ExternalMemoryBuffer::new(d.as_mut_slice(), t.layout.clone()); go!(&mut o, ..); }
                    let o = ExternalMemoryBuffer::new(d.as_slice(), t.layout.clone());
                    read_all("convert_into", &o, t, &want, rng, obs)?
                }
                3 | 2 => {
                    // into a window of a larger buffer
                    let (pre, post) = (t.rand_pts(rng, 2), t.rand_pts(rng, 1));
                    let all = [pre.clone(), old.clone(), post.clone()].concat();
                    let mut o = vbuf(t, &all, rng);
                    { let mut w = o.slice_mut(2..2 + old.len()); go!(&mut w, ..); }
                    let want = [pre, want, post].concat();
                    read_all("convert_into", &o, t, &want, rng, obs)?
                }
                _ => {
                    let (pre, post) = (t.rand_pts(rng, 2), t.rand_pts(rng, 1));
                    let all = [pre.clone(), old.clone(), post.clone()].concat();
                    let mut o = hbuf(t, &all, rng);
                    { let mut w = o.slice_mut(2..2 + old.len()); go!(&mut w, ..); }
                    let want = [pre, want, post].concat();
                    read_all("convert_into", &o, t, &want, rng, obs)?
                }
            }
            obs.ev(if way == 1 { "convert_into" } else { "convert_into_range" });
        }
        // the source stays as it was
        read_all("conversion source", sb, l, sm, rng, obs)?;
    });
    Ok(())
}

pub fn p07(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = rand_layout(rng, obs, 1, 6, false);
    let extra = rng.chance(1, 3);
    let t = target_of(&l, rng, obs, extra);
    let maps = default_maps(&l, &t);
    let missing = maps.iter().any(|m| m.is_none());
    let conv = if missing {
        must_refuse("for_layouts:missing attribute", || { BufferLayoutConverter::for_layouts(&l.layout, &t.layout); })?;
        obs.ev("missing_attributes");
        must("for_layouts_with_default", || BufferLayoutConverter::for_layouts_with_default(&l.layout, &t.layout))?
    } else if rng.bool() {
        must("for_layouts", || BufferLayoutConverter::for_layouts(&l.layout, &t.layout))?
    } else {
        must("for_layouts_with_default", || BufferLayoutConverter::for_layouts_with_default(&l.layout, &t.layout))?
    };
    for _ in 0..rng.range(1, 3) {
        run_conversion(&conv, &l, &t, &maps, rng, obs)?;
    }
    // single points
    let mut t = t;
    let mut maps = maps;
    if rng.chance(1, 4) {
        // also with attributes that cannot be converted, which keep their values
        let mut defs: Vec<_> = l.attrs.iter().map(|a| a.def.with_custom_datatype(if rng.bool() { a.def.datatype() } else { *rng.pick(&DT) })).collect();
        rng.shuffle(&mut defs);
        let (pl, how) = rand_layout_of(rng, &defs);
        t = L::of(pl);
        obs.step(|| format!("target of single points {how} {}", t.show()));
        maps = default_maps(&l, &t);
        for (m, ta) in maps.iter_mut().zip(&t.attrs) {
            let src = m.as_ref().unwrap().src;
            if !convertible(l.attrs[src].def.datatype(), ta.def.datatype()) { *m = None }
        }
        if maps.iter().any(|m| m.is_none()) {
            must_refuse("for_layouts:impossible conversion", || { BufferLayoutConverter::for_layouts(&l.layout, &t.layout); })?;
            must_refuse("for_layouts_with_default:impossible conversion", || { BufferLayoutConverter::for_layouts_with_default(&l.layout, &t.layout); })?;
            obs.ev("impossible");
        }
    }
    let rc = must("RawPointConverter::from_to", || RawPointConverter::from_to(&l.layout, &t.layout))?;
    for _ in 0..3 {
        let p = l.rand_pt(rng);
        let old = t.rand_pt(rng);
        obs.step(|| format!("single point {p:?} into {old:?}"));
        let src = l.encode(&p, rng);
        let mut dst = t.encode(&old, rng);
        let before = dst.clone();
        must("RawPointConverter::convert", || unsafe { rc.convert(&src, &mut dst) })?;
        let want = expected(&l, &t, &maps, &[p], &[old], 0).remove(0);
        let mut covered = vec![false; t.size];
        for (ai, a) in t.attrs.iter().enumerate() {
            covered[a.off..a.off + a.size].fill(true);
            let g = &dst[a.off..a.off + a.size];
            ensure!(same(a.def.datatype(), g, &want[ai]), "RawPointConverter", "attribute {}: got {g:?}, want {:?}", a.def, want[ai]);
        }
        ensure!((0..t.size).all(|i| covered[i] || dst[i] == before[i]), "RawPointConverter:padding", "bytes between the attributes changed");
        obs.ev("raw_point");
    }
    if maps.iter().flatten().count() > 0 && l.layout != t.layout {
        obs.nontrivial();
    }
    Ok(())
}

pub fn p08(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = rand_layout(rng, obs, 1, 5, true);
    let extra = rng.bool();
    let t = target_of(&l, rng, obs, extra);
    if t.attrs.is_empty() {
        return Ok(());
    }
    let mut maps = default_maps(&l, &t);
    let mut conv = must("for_layouts_with_default", || BufferLayoutConverter::for_layouts_with_default(&l.layout, &t.layout))?;
    for _ in 0..rng.range(1, 6) {
        let ti = rng.below(t.attrs.len());
        let cands: Vec<usize> = (0..l.attrs.len()).filter(|s| convertible(l.attrs[*s].def.datatype(), t.attrs[ti].def.datatype())).collect();
        if cands.is_empty() {
            let s = rng.pick(&l.attrs).def.clone();
            must_refuse("set_custom_mapping:impossible", || conv.set_custom_mapping(&s, &t.attrs[ti].def))?;
            obs.ev("impossible_mapping");
            continue;
        }
        let src = *rng.pick(&cands);
        let (s, d) = (l.attrs[src].def.clone(), t.attrs[ti].def.clone());
        if rng.chance(1, 3) {
            obs.step(|| format!("set_custom_mapping({s}, {d})"));
            must("set_custom_mapping", || conv.set_custom_mapping(&s, &d))?;
            maps[ti] = Some(Map { src, tf: None });
            obs.ev("mapping");
        } else {
            let to_source = rng.bool();
            let ty = if to_source { s.datatype() } else { d.datatype() };
            let key = rng.bytes(size_align(ty).0);
            obs.step(|| format!("set_custom_mapping_with_transformation({s}, {d}, {key:?}, {to_source})"));
            let k2 = key.clone();
            with_prim!(ty, T => {
                must("set_custom_mapping_with_transformation", || conv.set_custom_mapping_with_transformation(&s, &d, move |mut v: T| { scramble(&k2, bytemuck::bytes_of_mut(&mut v)); v }, to_source))?;
                maps[ti] = Some(Map { src, tf: Some((key, to_source)) });
                obs.ev(if to_source { "transform_source" } else { "transform_target" });
            }, ());
            // a transformation of another type is refused
            if ty != D::I8 && rng.chance(1, 4) {
                must_refuse("set_custom_mapping_with_transformation:wrong type", || conv.set_custom_mapping_with_transformation(&s, &d, |v: i8| v, to_source))?;
                obs.ev("wrong_transform_type");
            }
        }
    }
    for _ in 0..rng.range(1, 3) {
        run_conversion(&conv, &l, &t, &maps, rng, obs)?;
    }
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- P11

fn untyped<U: UntypedPoint>(who: &str, u: &mut U, l: &L, m: &mut Pt, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut raw = u.get_buffer().to_vec();
    ensure!(*u.get_layout() == l.layout, format!("{who}:layout"), "layout differs");
    for _ in 0..rng.range(1, 12) {
        let ai = rng.below(l.attrs.len());
        let a = l.attrs[ai].clone();
        let ty = if rng.bool() { a.def.datatype() } else { prim_datatype(rng) };
        match rng.below(8) {
            0 => {
                let v = rand_value(rng, a.def.datatype());
                obs.step(|| format!("{who}.set_raw_attribute({}, {v:?})", a.def));
                let r = must(&format!("{who}:set_raw_attribute"), || u.set_raw_attribute(&a.def, &v))?;
                ensure!(r.is_ok(), format!("{who}:set_raw_attribute"), "{who}: set_raw_attribute refused: {:?}", r.err());
                m[ai] = v.clone();
                raw[a.off..a.off + a.size].copy_from_slice(&v);
                obs.ev("set_raw");
            }
            1 => {
                let v = rand_value(rng, a.def.datatype());
                obs.step(|| format!("{who}.get_raw_attribute_mut({}) <- {v:?}", a.def));
                let r = must(&format!("{who}:get_raw_attribute_mut"), || u.get_raw_attribute_mut(&a.def).map(|s| s.copy_from_slice(&v)))?;
                ensure!(r.is_ok(), format!("{who}:get_raw_attribute_mut"), "{who}: refused: {:?}", r.err());
                m[ai] = v.clone();
                raw[a.off..a.off + a.size].copy_from_slice(&v);
                obs.ev("set_raw");
            }
            2 | 3 => with_prim!(ty, T => {
                let v = rand_value(rng, ty);
                obs.step(|| format!("{who}.set_attribute::<{ty}>({}, {v:?})", a.def));
                let r = attempt(|| u.set_attribute::<T>(&a.def, &typed::<T>(&v)));
                if convertible(ty, a.def.datatype()) {
                    ensure!(matches!(r, Ok(Ok(()))), format!("{who}:set_attribute"), "{who}: set_attribute::<{ty}>({}) refused: {r:?}", a.def);
                    let w = reference(ty, a.def.datatype(), &v).unwrap();
                    let g = u.get_buffer()[a.off..a.off + a.size].to_vec();
                    ensure!(same(a.def.datatype(), &g, &w), format!("{who}:set_attribute"), "{who}: set_attribute::<{ty}>({}, {v:?}) stored {g:?}, want {w:?}", a.def);
                    raw[a.off..a.off + a.size].copy_from_slice(&g);
                    m[ai] = g;
                    obs.ev(if ty == a.def.datatype() { "set_typed" } else { "set_converted" });
                } else {
                    ensure!(!matches!(r, Ok(Ok(()))), format!("{who}:set_attribute impossible"), "{who}: set_attribute::<{ty}>({}) accepted", a.def);
                    obs.ev("refused");
                }
            }, ()),
            4 | 5 => with_prim!(ty, T => {
                obs.step(|| format!("{who}.get_attribute::<{ty}>({})", a.def));
                let r = attempt(|| u.get_attribute::<T>(&a.def));
                if convertible(a.def.datatype(), ty) {
                    let w = reference(a.def.datatype(), ty, &m[ai]).unwrap();
                    match r {
                        Ok(Ok(g)) => ensure!(same(ty, bytemuck::bytes_of(&g), &w), format!("{who}:get_attribute"), "{who}: get_attribute::<{ty}>({}) gives {g:?}, want bytes {w:?} from {:?}", a.def, m[ai]),
                        o => return violation(format!("{who}:get_attribute"), format!("{who}: get_attribute::<{ty}>({}) refused: {o:?}", a.def)),
                    }
                    obs.ev(if ty == a.def.datatype() { "get_typed" } else { "get_converted" });
                } else {
                    ensure!(!matches!(r, Ok(Ok(_))), format!("{who}:get_attribute impossible"), "{who}: get_attribute::<{ty}>({}) accepted", a.def);
                    obs.ev("refused");
                }
            }, ()),
            6 => {
                // unknown attributes and wrong sizes
                let f = if rng.bool() { PointAttributeDefinition::custom("NotThere".into(), D::U8) } else {
                    let d = loop { let d = prim_datatype(rng); if d != a.def.datatype() { break d } };
                    a.def.with_custom_datatype(d)
                };
                obs.step(|| format!("{who}: foreign attribute {f}"));
                ensure!(!matches!(attempt(|| u.get_raw_attribute(&f).is_ok()), Ok(true)), format!("{who}:foreign"), "get_raw_attribute({f}) accepted");
                ensure!(!matches!(attempt(|| u.get_raw_attribute_mut(&f).is_ok()), Ok(true)), format!("{who}:foreign"), "get_raw_attribute_mut({f}) accepted");
                let v = rng.bytes(f.size() as usize);
                ensure!(!matches!(attempt(|| u.set_raw_attribute(&f, &v).is_ok()), Ok(true)), format!("{who}:foreign"), "set_raw_attribute({f}) accepted");
                with_prim!(f.datatype(), T => {
                    ensure!(!matches!(attempt(|| u.get_attribute::<T>(&f).is_ok()), Ok(true)), format!("{who}:foreign"), "get_attribute({f}) accepted");
                    ensure!(!matches!(attempt(|| u.set_attribute::<T>(&f, &typed::<T>(&v)).is_ok()), Ok(true)), format!("{who}:foreign"), "set_attribute({f}) accepted");
                }, ());
                let wrong = if rng.bool() { a.size + rng.range(1, 3) } else { a.size - 1 };
                let wrong = rng.bytes(wrong);
                ensure!(!matches!(attempt(|| u.set_raw_attribute(&a.def, &wrong).is_ok()), Ok(true)), format!("{who}:wrong size"), "set_raw_attribute({}) with {} bytes accepted", a.def, wrong.len());
                obs.ev("refused");
            }
            _ => {
                use std::io::{Read, Seek, SeekFrom, Write};
                let v = rand_value(rng, a.def.datatype());
                obs.step(|| format!("{who}.get_cursor at {} <- {v:?}", a.off));
                let mut c = u.get_cursor();
                let mut old = vec![0; a.size];
                c.seek(SeekFrom::Start(a.off as u64)).unwrap();
                ensure!(c.read_exact(&mut old).is_ok() && old == m[ai], format!("{who}:get_cursor"), "{who}: reading {} through the cursor gives {old:?}, want {:?}", a.def, m[ai]);
                c.seek(SeekFrom::Start(a.off as u64)).unwrap();
                c.write_all(&v).unwrap();
                raw[a.off..a.off + a.size].copy_from_slice(&v);
                m[ai] = v;
                obs.ev("cursor");
            }
        }
        ensure!(u.get_buffer() == &raw[..], format!("{who}:other bytes"), "{who}: the point is {:?}, want {raw:?}", u.get_buffer());
        for (a, w) in l.attrs.iter().zip(m.iter()) {
            let r = must(&format!("{who}:get_raw_attribute"), || u.get_raw_attribute(&a.def).map(|x| x.to_vec()))?;
            match r {
                Ok(g) => ensure!(g == *w, format!("{who}:get_raw_attribute"), "{who}: get_raw_attribute({}) gives {g:?}, want {w:?}", a.def),
                Err(e) => return violation(format!("{who}:get_raw_attribute"), format!("{who}: get_raw_attribute({}) refused: {e}", a.def)),
            }
        }
    }
    Ok(())
}

pub fn p11(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = rand_layout(rng, obs, 1, 6, false);
    match rng.below(4) {
        0 => {
            let mut u = must("UntypedPointBuffer::new", || UntypedPointBuffer::new(&l.layout))?;
            ensure!(u.get_buffer().len() == l.size && u.get_buffer().iter().all(|b| *b == 0), "UntypedPointBuffer:new", "a new untyped point is not zero");
            let mut m = l.zero();
            untyped("UntypedPointBuffer", &mut u, &l, &mut m, rng, obs)?;
            // the same bytes seen through a buffer
            let mut b = VectorBuffer::new_from_layout(l.layout.clone());
            must("VectorBuffer:push_points", || unsafe { b.push_points(u.get_buffer()) })?;
            read_all("buffer of an untyped point", &b, &l, &[m], rng, obs)?;
        }
        1 => {
            let mut m = l.rand_pt(rng);
            let mut mem = l.encode(&m, rng);
            { let mut u = UntypedPointSlice::new(&l.layout, &mut mem); untyped("UntypedPointSlice", &mut u, &l, &mut m, rng, obs)?; }
            if let Err(e) = eq_pt(&l, &mem, &m) { return violation("UntypedPointSlice:memory", e) }
        }
        2 => {
            // a point of a buffer, in place
            let n = rng.range(1, 5);
            let mut m = l.rand_pts(rng, n);
            let i = rng.below(n);
            let mut b = vbuf(&l, &m, rng);
            { let mut u = UntypedPointSlice::new(&l.layout, b.get_point_mut(i)); untyped("UntypedPointSlice", &mut u, &l, &mut m[i], rng, obs)?; }
            read_all("buffer behind an untyped point", &b, &l, &m, rng, obs)?;
        }
        _ => {
            // too little memory
            let m = l.rand_pt(rng);
            let need = l.attrs.iter().map(|a| a.off + a.size).max().unwrap();
            let k = rng.below(need);
            let mut mem = l.encode(&m, rng)[..k].to_vec();
            let before = mem.clone();
            {
                let mut u = UntypedPointSlice::new(&l.layout, &mut mem);
                for (ai, a) in l.attrs.iter().enumerate() {
                    let inside = a.off + a.size <= k;
                    let r = attempt(|| u.get_raw_attribute(&a.def).map(|x| x.to_vec()).ok());
                    let r = match r { Ok(x) => x, Err(_) => None };
                    ensure!(r.is_some() == inside && r.map_or(true, |x| x == m[ai]), "UntypedPointSlice:short", "get_raw_attribute({}) in {k} bytes", a.def);
                    if !inside {
                        let v = rng.bytes(a.size);
                        ensure!(!matches!(attempt(|| u.set_raw_attribute(&a.def, &v).is_ok()), Ok(true)), "UntypedPointSlice:short", "set_raw_attribute({}) in {k} bytes accepted", a.def);
                        with_prim!(a.def.datatype(), T => {
                            ensure!(!matches!(attempt(|| u.get_attribute::<T>(&a.def).is_ok()), Ok(true)), "UntypedPointSlice:short", "get_attribute({}) in {k} bytes accepted", a.def);
                            ensure!(!matches!(attempt(|| u.set_attribute::<T>(&a.def, &typed::<T>(&v)).is_ok()), Ok(true)), "UntypedPointSlice:short", "set_attribute({}) in {k} bytes accepted", a.def);
                        }, ());
                    }
                }
            }
            ensure!(mem == before, "UntypedPointSlice:short", "memory changed by refused requests");
            obs.ev("short");
        }
    }
    obs.nontrivial();
    Ok(())
}

pub const P06: Property = Property {
    id: "P06",
    rule: "a random pair of datatypes; all values of one byte types, many of two byte types, edge and random values otherwise, at random addresses between guard bytes, compared with a reference cast over i128 and f64; non-trivial: a convertible pair of different types",
    assumptions: &["the sign and payload of a NaN is not specified"],
    quick_cases: 160_000,
    thorough_cases: 20_000_000,
    case: p06,
    required_events: &["values", "exhaustive_values", "impossible", "unit", "turning values"],
};

pub const P07: Property = Property {
    id: "P07",
    rule: "random source layout, target layout with a subset of the attributes in another order and with other datatypes and extra attributes, random points, all kinds of source and target buffer, new and existing targets; non-trivial: layouts differ and share an attribute",
    assumptions: &["the sign and payload of a NaN is not specified", "values of byte arrays and custom datatypes are copied only to the same datatype"],
    quick_cases: 320_000,
    thorough_cases: 20_000_000,
    case: p07,
    required_events: &["convert", "convert_into", "convert_into_range", "missing_attributes", "raw_point", "impossible", "src_interleaved", "src_columnar", "src_external", "src_slice"],
};

pub const P08: Property = Property {
    id: "P08",
    rule: "as P07, with up to five custom mappings, replacing earlier ones, with and without transformation on the source or target side; non-trivial: every case",
    assumptions: &["the sign and payload of a NaN is not specified"],
    quick_cases: 320_000,
    thorough_cases: 20_000_000,
    case: p08,
    required_events: &["convert", "convert_into", "convert_into_range", "mapping", "transform_source", "transform_target", "impossible_mapping", "wrong_transform_type"],
};

pub const P11: Property = Property {
    id: "P11",
    rule: "an untyped point over a random layout, owned or over memory of a buffer or too short memory, random raw and typed writes and reads, each followed by a comparison of all attributes and all bytes; non-trivial: every case",
    assumptions: &["the sign and payload of a NaN is not specified"],
    quick_cases: 480_000,
    thorough_cases: 30_000_000,
    case: p11,
    required_events: &["set_raw", "set_typed", "set_converted", "get_typed", "get_converted", "cursor", "refused", "short"],
};

