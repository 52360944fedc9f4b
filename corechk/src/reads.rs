//! The read monitor: compares everything that can be read from a buffer with the model's points.
use crate::gen::*;
use crate::with_prim;
use mon::{ensure, must, violation, Obs, Rng, Verdict};
use pasture_core::containers::*;

fn cmp(who: &str, op: &str, ctx: &str, got: &[u8], want: &[u8]) -> Verdict {
    if got != want {
        return violation(format!("{who}:{op}"), format!("{who}: {op} {ctx}: got {got:?}, want {want:?}"));
    }
    Ok(())
}

/// One randomly chosen way of reading, checked against the model
pub fn read_some<'a, B: BorrowedBuffer<'a> + 'a>(who: &str, b: &B, l: &L, m: &[Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    read_way(who, b, l, m, rng.below(9), rng, obs)
}

/// Every way of reading, over the whole buffer
pub fn read_all<'a, B: BorrowedBuffer<'a> + 'a>(who: &str, b: &B, l: &L, m: &[Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    ensure!(b.len() == m.len(), format!("{who}:len"), "{who}: len() is {}, want {}", b.len(), m.len());
    ensure!(b.is_empty() == m.is_empty(), format!("{who}:is_empty"), "{who}: is_empty() is {} at length {}", b.is_empty(), m.len());
    ensure!(*b.point_layout() == l.layout, format!("{who}:layout"), "{who}: layout changed: {}", b.point_layout());
    for w in 0..9 {
        read_way(who, b, l, m, w, rng, obs)?;
    }
    // full sweep by value
    for (i, p) in m.iter().enumerate() {
        let mut d = vec![0xAA; l.size];
        must(&format!("{who}:get_point"), || b.get_point(i, &mut d))?;
        if let Err(e) = eq_pt(l, &d, p) {
            return violation(format!("{who}:get_point"), format!("{who}: get_point({i}) of {}: {e}", m.len()));
        }
    }
    obs.evn("points_compared", m.len() as u64);
    Ok(())
}

pub fn read_way<'a, B: BorrowedBuffer<'a> + 'a>(who: &str, b: &B, l: &L, m: &[Pt], way: usize, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = m.len();
    ensure!(b.len() == n, format!("{who}:len"), "{who}: len() is {}, want {}", b.len(), n);
    ensure!(*b.point_layout() == l.layout, format!("{who}:layout"), "{who}: layout changed: {}", b.point_layout());
    let r = rng.subrange(n);
    let i = if n > 0 { rng.below(n) } else { 0 };
    let ai = if l.attrs.is_empty() { None } else { Some(rng.below(l.attrs.len())) };
    match way {
        0 if n > 0 => {
            let mut d = vec![0x55; l.size];
            must(&format!("{who}:get_point"), || b.get_point(i, &mut d))?;
            if let Err(e) = eq_pt(l, &d, &m[i]) {
                return violation(format!("{who}:get_point"), format!("{who}: get_point({i}) of {n}: {e}"));
            }
            obs.ev("read_point");
        }
        1 => {
            let mut d = vec![0x55; l.size * r.len()];
            must(&format!("{who}:get_point_range"), || b.get_point_range(r.clone(), &mut d))?;
            for (k, i) in r.clone().enumerate() {
                if let Err(e) = eq_pt(l, &d[k * l.size..(k + 1) * l.size], &m[i]) {
                    return violation(format!("{who}:get_point_range"), format!("{who}: get_point_range({r:?}) point {i}: {e}"));
                }
            }
            obs.ev("read_point_range");
        }
        2 if n > 0 => {
            if let Some(ai) = ai {
                let a = &l.attrs[ai];
                let mut d = vec![0x55; a.size];
                must(&format!("{who}:get_attribute"), || b.get_attribute(&a.def, i, &mut d))?;
                cmp(who, "get_attribute", &format!("{} of point {i}", a.def), &d, &m[i][ai])?;
                let mut d = vec![0x55; a.size];
                let mem = l.layout.get_attribute(&a.def).expect("attribute of the layout");
                must(&format!("{who}:get_attribute_unchecked"), || unsafe { b.get_attribute_unchecked(mem, i, &mut d) })?;
                cmp(who, "get_attribute_unchecked", &format!("{} of point {i}", a.def), &d, &m[i][ai])?;
                obs.ev("read_attribute");
            }
        }
        3 => {
            if let Some(ai) = ai {
                let a = &l.attrs[ai];
                let mut d = vec![0x55; a.size * r.len()];
                must(&format!("{who}:get_attribute_range"), || b.get_attribute_range(&a.def, r.clone(), &mut d))?;
                let want: Vec<u8> = r.clone().flat_map(|i| m[i][ai].clone()).collect();
                cmp(who, "get_attribute_range", &format!("{} of {r:?}", a.def), &d, &want)?;
                obs.ev("read_attribute_range");
            }
        }
        4 => {
            if let Some(ib) = b.as_interleaved() {
                if n > 0 {
                    let d = must(&format!("{who}:get_point_ref"), || ib.get_point_ref(i).to_vec())?;
                    ensure!(d.len() == l.size, format!("{who}:get_point_ref"), "{who}: get_point_ref({i}) has {} bytes, want {}", d.len(), l.size);
                    if let Err(e) = eq_pt(l, &d, &m[i]) {
                        return violation(format!("{who}:get_point_ref"), format!("{who}: get_point_ref({i}): {e}"));
                    }
                }
                let d = must(&format!("{who}:get_point_range_ref"), || ib.get_point_range_ref(r.clone()).to_vec())?;
                ensure!(d.len() == l.size * r.len(), format!("{who}:get_point_range_ref"), "{who}: get_point_range_ref({r:?}) has {} bytes", d.len());
                for (k, i) in r.clone().enumerate() {
                    if let Err(e) = eq_pt(l, &d[k * l.size..(k + 1) * l.size], &m[i]) {
                        return violation(format!("{who}:get_point_range_ref"), format!("{who}: get_point_range_ref({r:?}) point {i}: {e}"));
                    }
                }
                obs.ev("read_ref_interleaved");
            }
        }
        5 => {
            if let (Some(cb), Some(ai)) = (b.as_columnar(), ai) {
                let a = &l.attrs[ai];
                if n > 0 {
                    let d = must(&format!("{who}:get_attribute_ref"), || cb.get_attribute_ref(&a.def, i).to_vec())?;
                    cmp(who, "get_attribute_ref", &format!("{} of point {i}", a.def), &d, &m[i][ai])?;
                }
                let d = must(&format!("{who}:get_attribute_range_ref"), || cb.get_attribute_range_ref(&a.def, r.clone()).to_vec())?;
                let want: Vec<u8> = r.clone().flat_map(|i| m[i][ai].clone()).collect();
                cmp(who, "get_attribute_range_ref", &format!("{} of {r:?}", a.def), &d, &want)?;
                obs.ev("read_ref_columnar");
            }
        }
        6 => {
            if let Some(ai) = ai {
                let a = &l.attrs[ai];
                let mem = l.layout.get_attribute(&a.def).expect("attribute of the layout");
                let sig = format!("{who}:view_raw_attribute");
                if let Some(ib) = b.as_interleaved() {
                    let v = must(&sig, || ib.view_raw_attribute(mem))?;
                    raw_view(&sig, &v, n, a, ai, m)?;
                    obs.ev("read_raw_view");
                }
                if let Some(cb) = b.as_columnar() {
                    let v = must(&sig, || cb.view_raw_attribute(mem))?;
                    raw_view(&sig, &v, n, a, ai, m)?;
                    obs.ev("read_raw_view");
                }
            }
        }
        7 => {
            if let Some(ai) = ai {
                let a = &l.attrs[ai];
                let sig = format!("{who}:view_attribute");
                with_prim!(a.def.datatype(), T => {
                    let v = must(&sig, || b.view_attribute::<T>(&a.def))?;
                    for i in 0..n {
                        let x = must(&sig, || v.at(i))?;
                        cmp(who, "view_attribute.at", &format!("{} of point {i}", a.def), bytemuck::bytes_of(&x), &m[i][ai])?;
                    }
                    obs.ev("read_typed_view");
                }, ());
            }
        }
        8 => {
            if let Some(ai) = ai {
                let a = &l.attrs[ai];
                let sig = format!("{who}:view_attribute.iter");
                with_prim!(a.def.datatype(), T => {
                    let got: Vec<u8> = must(&sig, || b.view_attribute::<T>(&a.def).into_iter().flat_map(|x| bytemuck::bytes_of(&x).to_vec()).collect())?;
                    let want: Vec<u8> = m.iter().flat_map(|p| p[ai].clone()).collect();
                    cmp(who, "view_attribute.iter", &format!("{}", a.def), &got, &want)?;
                    obs.ev("read_typed_iter");
                }, ());
            }
        }
        _ => {}
    }
    Ok(())
}

fn raw_view(sig: &str, v: &RawAttributeView<'_>, n: usize, a: &A, ai: usize, m: &[Pt]) -> Verdict {
    if a.size == 0 {
        return Ok(());
    }
    ensure!(v.len() == n, format!("{sig}.len"), "{sig}: length {}, want {n}", v.len());
    ensure!(v.is_empty() == (n == 0), format!("{sig}.is_empty"), "{sig}: is_empty() at length {n}");
    for i in 0..n {
        let d = must(sig, || v[i].to_vec())?;
        ensure!(d == m[i][ai], sig, "{sig}[{i}] of {}: got {d:?}, want {:?}", a.def, m[i][ai]);
    }
    Ok(())
}

/// One random in-bounds write through the mutable interface, applied to the buffer and to the model
pub fn write_some<'a, B: BorrowedMutBuffer<'a> + 'a>(who: &str, b: &mut B, l: &L, m: &mut [Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = m.len();
    let r = rng.subrange(n);
    let i = if n > 0 { rng.below(n) } else { 0 };
    let ai = if l.attrs.is_empty() { None } else { Some(rng.below(l.attrs.len())) };
    match rng.below(10) {
        0 if n > 0 => {
            let p = l.rand_pt(rng);
            let d = l.encode(&p, rng);
            obs.step(|| format!("{who}.set_point({i}, {d:?})"));
            must(&format!("{who}:set_point"), || unsafe { b.set_point(i, &d) })?;
            m[i] = p;
            obs.ev("write_point");
        }
        1 => {
            let ps = l.rand_pts(rng, r.len());
            let d = l.encode_all(&ps, rng);
            obs.step(|| format!("{who}.set_point_range({r:?}, {d:?})"));
            must(&format!("{who}:set_point_range"), || unsafe { b.set_point_range(r.clone(), &d) })?;
            for (i, p) in r.zip(ps) {
                m[i] = p;
            }
            obs.ev("write_point_range");
        }
        2 if n > 0 && ai.is_some() => {
            let ai = ai.unwrap();
            let a = &l.attrs[ai];
            let v = rand_value(rng, a.def.datatype());
            obs.step(|| format!("{who}.set_attribute({}, {i}, {v:?})", a.def));
            must(&format!("{who}:set_attribute"), || unsafe { b.set_attribute(&a.def, i, &v) })?;
            m[i][ai] = v;
            obs.ev("write_attribute");
        }
        3 if ai.is_some() => {
            let ai = ai.unwrap();
            let a = &l.attrs[ai];
            let vs: Vec<Vec<u8>> = r.clone().map(|_| rand_value(rng, a.def.datatype())).collect();
            let d: Vec<u8> = vs.concat();
            obs.step(|| format!("{who}.set_attribute_range({}, {r:?}, {d:?})", a.def));
            must(&format!("{who}:set_attribute_range"), || unsafe { b.set_attribute_range(&a.def, r.clone(), &d) })?;
            for (i, v) in r.zip(vs) {
                m[i][ai] = v;
            }
            obs.ev("write_attribute_range");
        }
        4 | 5 if n > 0 => {
            let j = rng.below(n);
            obs.step(|| format!("{who}.swap({i}, {j})"));
            must(&format!("{who}:swap"), || b.swap(i, j))?;
            m.swap(i, j);
            obs.ev("swap");
        }
        6 if ai.is_some() => {
            let ai = ai.unwrap();
            let a = &l.attrs[ai];
            let key = rng.bytes(a.size.max(1));
            // the transformation depends on index and old value
            with_prim!(a.def.datatype(), T => {
                obs.step(|| format!("{who}.transform_attribute({}, xor {key:?} and index)", a.def));
                must(&format!("{who}:transform_attribute"), || b.transform_attribute::<T, _>(&a.def, |i: usize, mut v: T| {
                    for (k, x) in bytemuck::bytes_of_mut(&mut v).iter_mut().enumerate() {
                        *x = x.wrapping_add(key[k]).wrapping_add(i as u8);
                    }
                    v
                }))?;
                for (i, p) in m.iter_mut().enumerate() {
                    for (k, x) in p[ai].iter_mut().enumerate() {
                        *x = x.wrapping_add(key[k]).wrapping_add(i as u8);
                    }
                }
                obs.ev("transform");
            }, ());
        }
        7 if n > 0 && ai.is_some() => {
            let ai = ai.unwrap();
            let a = &l.attrs[ai];
            let v = rand_value(rng, a.def.datatype());
            with_prim!(a.def.datatype(), T => {
                obs.step(|| format!("{who}.view_attribute_mut({}).set_at({i}, {v:?})", a.def));
                let old = must(&format!("{who}:view_attribute_mut"), || {
                    let mut w = b.view_attribute_mut::<T>(&a.def);
                    let old = w.at(i);
                    w.set_at(i, typed::<T>(&v));
                    old
                })?;
                cmp(who, "view_attribute_mut.at", &format!("{} of point {i}", a.def), bytemuck::bytes_of(&old), &m[i][ai])?;
                m[i][ai] = v;
                obs.ev("write_typed_view");
            }, ());
        }
        8 => {
            let sig = format!("{who}:as_interleaved_mut");
            if let Some(ib) = must(&sig, || b.as_interleaved_mut())? {
                match rng.below(3) {
                    0 if n > 0 => {
                        let p = l.rand_pt(rng);
                        let d = l.encode(&p, rng);
                        obs.step(|| format!("{who}.get_point_mut({i}) <- {d:?}"));
                        must(&format!("{who}:get_point_mut"), || ib.get_point_mut(i).copy_from_slice(&d))?;
                        m[i] = p;
                    }
                    1 => {
                        let ps = l.rand_pts(rng, r.len());
                        let d = l.encode_all(&ps, rng);
                        obs.step(|| format!("{who}.get_point_range_mut({r:?}) <- {d:?}"));
                        must(&format!("{who}:get_point_range_mut"), || ib.get_point_range_mut(r.clone()).copy_from_slice(&d))?;
                        for (i, p) in r.zip(ps) {
                            m[i] = p;
                        }
                    }
                    2 if n > 0 && ai.is_some() => {
                        let ai = ai.unwrap();
                        let a = &l.attrs[ai];
                        let mem = l.layout.get_attribute(&a.def).unwrap().clone();
                        let v = rand_value(rng, a.def.datatype());
                        obs.step(|| format!("{who}.view_raw_attribute_mut({})[{i}] <- {v:?}", a.def));
                        must(&format!("{who}:view_raw_attribute_mut"), || {
                            let mut w = ib.view_raw_attribute_mut(&mem);
                            let old = w[i].to_vec();
                            w[i].copy_from_slice(&v);
                            old
                        })
                        .and_then(|old| cmp(who, "view_raw_attribute_mut", &format!("{} of point {i}", a.def), &old, &m[i][ai]))?;
                        m[i][ai] = v;
                    }
                    _ => {}
                }
                obs.ev("write_ref_interleaved");
            }
        }
        9 => {
            let sig = format!("{who}:as_columnar_mut");
            if let (Some(cb), Some(ai)) = (must(&sig, || b.as_columnar_mut())?, ai) {
                let a = &l.attrs[ai];
                match rng.below(3) {
                    0 if n > 0 => {
                        let v = rand_value(rng, a.def.datatype());
                        obs.step(|| format!("{who}.get_attribute_mut({}, {i}) <- {v:?}", a.def));
                        must(&format!("{who}:get_attribute_mut"), || cb.get_attribute_mut(&a.def, i).copy_from_slice(&v))?;
                        m[i][ai] = v;
                    }
                    1 => {
                        let vs: Vec<Vec<u8>> = r.clone().map(|_| rand_value(rng, a.def.datatype())).collect();
                        let d: Vec<u8> = vs.concat();
                        obs.step(|| format!("{who}.get_attribute_range_mut({}, {r:?}) <- {d:?}", a.def));
                        must(&format!("{who}:get_attribute_range_mut"), || cb.get_attribute_range_mut(&a.def, r.clone()).copy_from_slice(&d))?;
                        for (i, v) in r.zip(vs) {
                            m[i][ai] = v;
                        }
                    }
                    2 if n > 0 && a.size > 0 => {
                        let mem = l.layout.get_attribute(&a.def).unwrap().clone();
                        let v = rand_value(rng, a.def.datatype());
                        obs.step(|| format!("{who}.view_raw_attribute_mut({})[{i}] <- {v:?}", a.def));
                        must(&format!("{who}:view_raw_attribute_mut"), || {
                            let mut w = cb.view_raw_attribute_mut(&mem);
                            let old = w[i].to_vec();
                            w[i].copy_from_slice(&v);
                            old
                        })
                        .and_then(|old| cmp(who, "view_raw_attribute_mut", &format!("{} of point {i}", a.def), &old, &m[i][ai]))?;
                        m[i][ai] = v;
                    }
                    _ => {}
                }
                obs.ev("write_ref_columnar");
            }
        }
        _ => {}
    }
    Ok(())
}
