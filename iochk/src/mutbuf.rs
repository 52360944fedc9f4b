//! Running an operation on a mutable buffer of any kind
/// Runs `$body` with `$b` a mutable buffer of kind `$kind` that holds `$m`; gives its result and the points afterwards.
/// Points around a slice must stay.
#[macro_export]
macro_rules! with_mut_buffer {
    ($kind:expr, $l:expr, $m:expr, $rng:expr, $b:ident => $body:expr) => {{
        let l: &L = $l;
        let m: &[Pt] = $m;
        match $kind {
            0 => { let mut o = vbuf(l, m, $rng); let out = { let $b = &mut o; $body }; (out, snapshot(&o, l)) }
            1 => { let mut o = hbuf(l, m, $rng); let out = { let $b = &mut o; $body }; (out, snapshot(&o, l)) }
            2 => {
                let mut d = l.encode_all(m, $rng);
                let out = { let mut o = ExternalMemoryBuffer::new(&mut d[..], l.layout.clone()); let $b = &mut o; $body };
                let o = ExternalMemoryBuffer::new(d, l.layout.clone());
                (out, snapshot(&o, l))
            }
            k => {
                let pre = $rng.below(3);
                let post = $rng.below(3);
                let mut all = l.rand_pts($rng, pre);
                all.extend_from_slice(m);
                all.extend(l.rand_pts($rng, post));
                let r = pre..pre + m.len();
                let (out, s) = if k == 3 {
                    let mut o = vbuf(l, &all, $rng);
                    let out = { let mut w = o.slice_mut(r.clone()); let $b = &mut w; $body };
                    (out, snapshot(&o, l))
                } else {
                    let mut o = hbuf(l, &all, $rng);
                    let out = { let mut w = o.slice_mut(r.clone()); let $b = &mut w; $body };
                    (out, snapshot(&o, l))
                };
                ensure!(s[..pre] == all[..pre] && s[r.end..] == all[r.end..], "outside of the slice", "points outside of the slice {r:?} changed from {all:?} to {s:?}");
                (out, s[r].to_vec())
            }
        }
    }};
}
pub const KINDS: [&str; 5] = ["VectorBuffer", "HashMapBuffer", "ExternalMemoryBuffer", "interleaved slice", "columnar slice"];

