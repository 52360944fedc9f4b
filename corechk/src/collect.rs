//! P09 (collecting, filtering, appending) and P10 (pushing attribute by attribute)
use crate::bufs::*;
use crate::gen::*;
use crate::reads::*;
use crate::views::*;
use crate::with_prim;
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use pasture_core::containers::*;
use pasture_core::layout::*;

/// An iterator with a legal but unhelpful size hint
struct Hinted<I> {
    it: I,
    lo: usize,
    hi: Option<usize>,
}

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.it.next();
        if x.is_some() {
            self.lo = self.lo.saturating_sub(1);
            self.hi = self.hi.map(|h| h - 1);
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}

/// Collects the points in one of many ways
fn collected<T: TP, B: FromIterator<T>>(ts: &[T], way: usize, rng: &mut Rng) -> (B, Vec<usize>) {
    let n = ts.len();
    let all: Vec<usize> = (0..n).collect();
    let keep: Vec<bool> = (0..n).map(|_| rng.bool()).collect();
    let kept: Vec<usize> = (0..n).filter(|i| keep[*i]).collect();
    let k = rng.below(n + 2);
    match way {
        0 => (ts.iter().copied().collect(), all),
        1 => (ts.to_vec().into_iter().collect(), all),
        2 => ((0..n).filter(|i| keep[*i]).map(|i| ts[i]).collect(), kept),
        3 => (ts[..k.min(n)].iter().chain(&ts[k.min(n)..]).copied().collect(), all),
        4 => (ts.iter().copied().take(k).collect(), all.into_iter().take(k).collect()),
        5 => (ts.iter().flat_map(|t| [*t, *t]).collect(), all.into_iter().flat_map(|i| [i, i]).collect()),
        6 => (ts.iter().enumerate().take_while(|(i, _)| *i < k).map(|(_, t)| *t).collect(), all.into_iter().take(k).collect()),
        7 => (ts.iter().copied().rev().skip(k).collect(), all.into_iter().rev().skip(k).collect()),
        8 => ({ let mut i = 0; std::iter::from_fn(move || { let r = ts.get(i).copied(); i += 1; r }).collect() }, all),
        9 => {
            let lo = rng.below(n + 1);
            let hi = if rng.bool() { None } else { Some(n + rng.below(20)) };
            (Hinted { it: ts.iter().copied(), lo, hi }.collect(), all)
        }
        10 => (Hinted { it: ts.iter().copied(), lo: n, hi: Some(n) }.collect(), all),
        _ => (ts.iter().copied().cycle().skip(k).take(if n == 0 { 0 } else { k + 3 }).collect(), if n == 0 { vec![] } else { all.into_iter().cycle().skip(k).take(k + 3).collect() }),
    }
}

fn collect_into<T: TP, B: Own + FromIterator<T>>(who: &str, l: &L, ts: &[T], m: &[Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let way = rng.below(12);
    obs.step(|| format!("{who}: collect way {way} of {} x {} points {m:?}", std::any::type_name::<T>(), m.len()));
    let sig = format!("{who}:from_iter");
    let (mut b, idx) = must(&sig, || collected::<T, B>(ts, way, rng))?;
    let mut k: Vec<Pt> = idx.iter().map(|i| m[*i].clone()).collect();
    let n = b.len();
    ensure!(n == k.len(), sig, "{who} collected from {} points (way {way}) has {n} points", k.len());
    ensure!(b.point_layout() == &T::layout(), sig, "the layout of the collected buffer is {}", b.point_layout());
    read_all(who, &b, l, &k, rng, obs)?;
    let v: Vec<T> = must(&sig, || b.view::<T>().into_iter().collect())?;
    ensure!(v.iter().map(bv).eq(idx.iter().map(|i| bv(&ts[*i]))), sig, "points of the collected {who} are {v:?}");
    // it grows like any other buffer
    if rng.bool() {
        let (t, p) = rand_t::<T>(l, rng);
        must(&format!("{who}:push after collect"), || b.view_mut::<T>().push_point(t))?;
        k.push(p);
        read_some(who, &b, l, &k, rng, obs)?;
    }
    obs.ev("collected");
    if matches!(way, 2 | 6 | 8 | 9) { obs.ev("collected_inexact_hint") }
    Ok(())
}

fn p09_collect<T: TP>(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = L::of(T::layout());
    let n = if rng.chance(1, 8) { 0 } else { count(rng, obs, 10) };
    let m = l.rand_pts(rng, n);
    let ts: Vec<T> = m.iter().map(|p| point(&l, p)).collect();
    if n > 1 { obs.nontrivial() }
    if rng.bool() {
        collect_into::<T, VectorBuffer>("VectorBuffer", &l, &ts, &m, rng, obs)
    } else {
        collect_into::<T, HashMapBuffer>("HashMapBuffer", &l, &ts, &m, rng, obs)
    }
}

fn p09_filter(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = rand_layout(rng, obs, 0, 6, false);
    let n = if rng.chance(1, 8) { 0 } else { count(rng, obs, 14) };
    let m = l.rand_pts(rng, n);
    let h = hbuf(&l, &m, rng);
    let keep: Vec<bool> = match rng.below(6) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => { let k = rng.below(n + 1); (0..n).map(|i| i >= k).collect() }
        3 => (0..n).map(|i| i % 2 == 0).collect(),
        _ => (0..n).map(|_| rng.bool()).collect(),
    };
    let want: Vec<Pt> = (0..n).filter(|i| keep[*i]).map(|i| m[i].clone()).collect();
    let k = want.len();
    if k > 0 && k < n { obs.nontrivial() }
    let way = rng.below(8);
    obs.step(|| format!("layout {}\nfilter way {way}: {m:?} keep {keep:?}", l.show()));
    let pred = |i: usize| keep[i];
    match way {
        0 | 1 => {
            let b = must("filter:VectorBuffer", || h.filter::<VectorBuffer, _>(pred))?;
            ensure!(b.point_layout() == &l.layout, "filter:VectorBuffer", "other layout");
            read_all("filter:VectorBuffer", &b, &l, &want, rng, obs)?;
        }
        2 | 3 => {
            let b = must("filter:HashMapBuffer", || h.filter::<HashMapBuffer, _>(pred))?;
            ensure!(b.point_layout() == &l.layout, "filter:HashMapBuffer", "other layout");
            read_all("filter:HashMapBuffer", &b, &l, &want, rng, obs)?;
        }
        _ => {
            // into a buffer that has room for more: its tail stays
            let extra = rng.below(4);
            let mut t = l.rand_pts(rng, k + extra);
            let old = t.clone();
            t[..k].clone_from_slice(&want);
            let hint = match rng.below(3) { 0 => Some(k), 1 => None, _ => Some(k + rng.below(extra + 1)) };
            obs.step(|| format!("filter_into {} points, hint {hint:?}", old.len()));
            match way {
                4 => {
                    let mut b = vbuf(&l, &old, rng);
                    must("filter_into:VectorBuffer", || h.filter_into(&mut b, pred, hint))?;
                    read_all("filter_into:VectorBuffer", &b, &l, &t, rng, obs)?;
                }
                5 => {
                    let mut b = hbuf(&l, &old, rng);
                    must("filter_into:HashMapBuffer", || h.filter_into(&mut b, pred, hint))?;
                    read_all("filter_into:HashMapBuffer", &b, &l, &t, rng, obs)?;
                }
                6 if !l.attrs.is_empty() => {
                    let mut b = ExternalMemoryBuffer::new(l.encode_all(&old, rng), l.layout.clone());
                    must("filter_into:ExternalMemoryBuffer", || h.filter_into(&mut b, pred, hint))?;
                    read_all("filter_into:ExternalMemoryBuffer", &b, &l, &t, rng, obs)?;
                }
                _ => {
                    // too small a target, or another layout: refused without changing it
                    if k > 0 && rng.bool() {
                        let few = l.rand_pts(rng, k - 1);
                        let hint = if rng.bool() { None } else { Some(k) };
                        let mut b = vbuf(&l, &few, rng);
                        must_refuse("filter_into too small", || h.filter_into(&mut b, pred, hint))?;
                        read_all("filter_into too small", &b, &l, &few, rng, obs)?;
                        obs.ev("filter_refused");
                    } else {
                        let o = rand_layout(rng, obs, 0, 6, false);
                        if o.layout != l.layout {
                            let old = o.rand_pts(rng, n + 1);
                            let mut b = hbuf(&o, &old, rng);
                            must_refuse("filter_into other layout", || h.filter_into(&mut b, pred, hint))?;
                            read_all("filter_into other layout", &b, &o, &old, rng, obs)?;
                            obs.ev("filter_refused");
                        }
                    }
                }
            }
        }
    }
    // the source is as it was
    read_all("filter:source", &h, &l, &m, rng, obs)?;
    obs.ev("filtered");
    Ok(())
}

/// A buffer of one kind appended to one of another kind, or the other way round, and the source afterwards
fn p09_append(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = rand_layout(rng, obs, 1, 6, false);
    let (n, k) = (rng.below(8), rng.below(8));
    let (m, s) = (l.rand_pts(rng, n), l.rand_pts(rng, k));
    if n > 0 && k > 0 { obs.nontrivial() }
    let r = rng.subrange(k);
    let way = rng.below(8);
    obs.step(|| format!("layout {}\nappend way {way}: {m:?} + {s:?} slice {r:?}", l.show()));
    let sig = format!("append#{way}");
    let mut want = m.clone();
    macro_rules! go { ($mk:ident, $who:expr, $src:expr, $take:expr, $f:ident, $read:expr) => {{
        let mut b = $mk(&l, &m, rng);
        must(&sig, || b.$f($src))?;
        want.extend($take.iter().cloned());
        read_all($who, &b, &l, &want, rng, obs)?;
        read_all("append:source", $read, &l, &s, rng, obs)?;
    }} }
    match way {
        0 => { let o = vbuf(&l, &s, rng); go!(hbuf, "HashMapBuffer", &o, s, append, &o) }
        1 => { let o = hbuf(&l, &s, rng); go!(vbuf, "VectorBuffer", &o, s, append, &o) }
        2 => { let o = hbuf(&l, &s, rng); go!(vbuf, "VectorBuffer", &o.slice(r.clone()), s[r.clone()], append, &o) }
        3 => { let o = vbuf(&l, &s, rng); go!(hbuf, "HashMapBuffer", &o.slice(r.clone()), s[r.clone()], append, &o) }
        4 => { let o = vbuf(&l, &s, rng); go!(vbuf, "VectorBuffer", &o.slice(r.clone()), s[r.clone()], append_interleaved, &o) }
        5 => { let o = hbuf(&l, &s, rng); go!(hbuf, "HashMapBuffer", &o.slice(r.clone()), s[r.clone()], append_columnar, &o) }
        6 => { let mut o = hbuf(&l, &s, rng); let c = s.clone(); { let t = o.slice_mut(r.clone()); go!(vbuf, "VectorBuffer", &t, c[r.clone()], append_columnar, &BufferSlice::new(&hbuf(&l, &s, rng), 0..k)); } read_all("append:source", &o, &l, &s, rng, obs)?; }
        _ => {
            // another layout is refused and nothing changes
            let o = rand_layout(rng, obs, 1, 6, false);
            if o.layout == l.layout { return Ok(()) }
            let so = o.rand_pts(rng, k);
            let mut b = hbuf(&l, &m, rng);
            let mut c = vbuf(&l, &m, rng);
            let (x, y) = (vbuf(&o, &so, rng), hbuf(&o, &so, rng));
            must_refuse("append other layout", || b.append(&x))?;
            must_refuse("append other layout", || b.append(&y))?;
            must_refuse("append other layout", || c.append(&x))?;
            must_refuse("append other layout", || c.append(&y))?;
            must_refuse("append other layout", || b.append_columnar(&y))?;
            must_refuse("append other layout", || c.append_interleaved(&x))?;
            read_all("append other layout", &b, &l, &m, rng, obs)?;
            read_all("append other layout", &c, &l, &m, rng, obs)?;
            obs.ev("append_refused");
        }
    }
    obs.ev("appended");
    Ok(())
}

fn p09(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    match rng.below(3) {
        0 => match rng.below(6) {
            0 => p09_collect::<Small>(rng, obs),
            1 => p09_collect::<Tiny>(rng, obs),
            2 => p09_collect::<Color>(rng, obs),
            3 => p09_collect::<Mid>(rng, obs),
            4 => p09_collect::<Odd>(rng, obs),
            _ => p09_collect::<Ints>(rng, obs),
        },
        1 => p09_filter(rng, obs),
        _ => p09_append(rng, obs),
    }
}

pub const P09: Property = Property {
    id: "P09",
    rule: "points collected from iterators with exact and inexact size hints, hash map buffers filtered by random predicates into every kind of target, buffers and slices of each kind appended to each other; non-trivial: a proper part is kept, or two non-empty buffers are joined",
    assumptions: &["the predicate is a function of the index"],
    quick_cases: 1_000_000,
    thorough_cases: 20_000_000,
    case: p09,
    required_events: &["collected", "collected_inexact_hint", "filtered", "filter_refused", "appended", "append_refused"],
};

fn push_attr(p: &mut HashMapBufferAttributePusher<'_>, def: &PointAttributeDefinition, as_type: PointAttributeDataType, bytes: &[u8]) {
    with_prim!(as_type, P => {
        let v: Vec<P> = bytes.chunks_exact(std::mem::size_of::<P>()).map(typed::<P>).collect();
        p.push_attribute_range::<P>(def, &v)
    }, ())
}

fn column(m: &[Pt], ai: usize) -> Vec<u8> {
    m.iter().flat_map(|p| p[ai].clone()).collect()
}

fn p10(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = rand_layout(rng, obs, 1, 6, true);
    let n = count(rng, obs, 6);
    let mut m = l.rand_pts(rng, n);
    let mut b = hbuf(&l, &m, rng);
    obs.step(|| format!("layout {}\n{n} points {m:?}", l.show()));
    let rounds = rng.range(1, 4);
    for _ in 0..rounds {
        let k = if rng.chance(1, 10) { 0 } else { count(rng, obs, 7) };
        let new = l.rand_pts(rng, k);
        let mut order: Vec<usize> = (0..l.attrs.len()).collect();
        rng.shuffle(&mut order);
        let way = rng.below(10);
        obs.step(|| format!("push {k} points {new:?} attribute order {order:?} way {way}"));
        let push = |p: &mut HashMapBufferAttributePusher<'_>, ai: usize, pts: &[Pt]| push_attr(p, &l.attrs[ai].def, l.attrs[ai].def.datatype(), &column(pts, ai));
        if k > 1 { obs.nontrivial() }
        match way {
            0..=3 => {
                must("pusher", || {
                    let mut p = b.begin_push_attributes();
                    for ai in &order { push(&mut p, *ai, &new) }
                    p.done();
                })?;
                m.extend(new);
                obs.ev("pushed");
            }
            4 => {
                // never committed: nothing happens
                must("pusher", || {
                    let mut p = b.begin_push_attributes();
                    for ai in &order { push(&mut p, *ai, &new) }
                })?;
                obs.ev("push_dropped");
            }
            5 if k > 0 => {
                // one attribute or more is missing
                let cut = rng.below(order.len());
                let r = attempt(|| {
                    let mut p = b.begin_push_attributes();
                    for ai in &order[..cut] { push(&mut p, *ai, &new) }
                    p.done();
                });
                ensure!(cut == 0 || r.is_err(), "pusher:missing attribute", "a push with {cut} of {} attributes was accepted", order.len());
                obs.ev("push_refused");
            }
            6 if k > 0 && order.len() > 1 => {
                // one of the attributes has another number of values
                let bad = rng.below(order.len());
                let cnt = [k - 1, k + 1, 2 * k, 0][rng.below(4)];
                let other = l.rand_pts(rng, cnt);
                let r = attempt(|| {
                    let mut p = b.begin_push_attributes();
                    for (i, ai) in order.iter().enumerate() {
                        if i == bad { push(&mut p, *ai, &other) } else { push(&mut p, *ai, &new) }
                    }
                    p.done();
                });
                ensure!(r.is_err(), "pusher:uneven", "attributes with {k} and {} values were accepted", other.len());
                obs.ev("push_refused");
            }
            7 => {
                // an attribute of another type, or one that the layout lacks
                let ai = order[0];
                let dt = l.attrs[ai].def.datatype();
                let to = prim_datatype(rng);
                if to == dt { continue }
                let (dst, how) = match rng.below(3) {
                    0 => (l.attrs[ai].def.clone(), "data of another type"),
                    1 => (l.attrs[ai].def.with_custom_datatype(to), "definition of another type"),
                    _ => (PointAttributeDefinition::custom("not in any layout".into(), to), "foreign attribute"),
                };
                let vals: Vec<u8> = (0..k).flat_map(|_| rand_value(rng, to)).collect();
                obs.step(|| format!("{how}: {dst} as {to}"));
                let r = attempt(|| {
                    let mut p = b.begin_push_attributes();
                    push_attr(&mut p, &dst, to, &vals);
                    for ai in &order[1..] { push(&mut p, *ai, &new) }
                    p.done();
                });
                ensure!(r.is_err(), "pusher:wrong attribute", "{how}: {dst} as {to} was accepted");
                obs.ev("push_refused");
            }
            8 if k > 0 => {
                // the same attribute twice, the first time possibly with no values
                let empty = if rng.bool() { Some(*rng.pick(&order)) } else { None };
                obs.step(|| format!("twice, first with no values: {empty:?}"));
                let r = attempt(|| {
                    if let Some(ai) = empty {
                        let mut p = b.begin_push_attributes();
                        push(&mut p, ai, &[]);
                        for ai in &order { push(&mut p, *ai, &new) }
                        return p.done();
                    }
                    let mut p = b.begin_push_attributes();
                    for ai in &order { push(&mut p, *ai, &new) }
                    push(&mut p, order[0], &new);
                    p.done();
                });
                ensure!(r.is_err(), "pusher:twice", "an attribute was pushed twice and accepted");
                obs.ev("push_refused");
            }
            _ => {
                // other ways of growing in between
                let d = l.encode_all(&new, rng);
                must("push_points", || unsafe { b.push_points(&d) })?;
                m.extend(new);
            }
        }
        ensure!(b.len() == m.len(), "pusher:len", "length {} after the push, want {}", b.len(), m.len());
        read_all("HashMapBuffer", &b, &l, &m, rng, obs)?;
    }
    Ok(())
}

pub const P10: Property = Property {
    id: "P10",
    rule: "rounds of attribute-wise pushes in random attribute order into hash map buffers of random layouts, complete or with a missing, uneven, wrongly typed, foreign or repeated attribute; non-trivial: two points or more are pushed",
    assumptions: &[],
    quick_cases: 600_000,
    thorough_cases: 20_000_000,
    case: p10,
    required_events: &["pushed", "push_dropped", "push_refused"],
};
