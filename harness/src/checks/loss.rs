//! C11 lossless round trip.
use super::{none, sub};
use crate::dec::*;
use crate::enc::*;
use crate::gen;
use crate::runner::{Check, Rec};
use crate::tape::Tape;

fn c11(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let c = gen::lossless(&mut t, &[1, 1, 3, 4], 2, 16, true);
    let data = c.stream().bytes();
    r.input(&data);
    let s = &c.scans[0];
    r.desc = format!(
        "{:?} {}x{} comps={} precision={} scans={:?}", v, c.img.w, c.img.h, c.img.planes.len(), c.img.prec,
        c.scans.iter().map(|s| (s.comps.clone(), s.pred, s.pt, s.ri_lines)).collect::<Vec<_>>()
    );
    r.class(format!("comps={} pred={} wide={} pt={} restart={}", c.img.planes.len(), s.pred, c.img.prec > 8, s.pt > 0, s.ri_lines > 0));
    r.class(format!("precision {}", c.img.prec));
    let exp = c.expected_samples();
    r.nontrivial = exp.iter().any(|&x| x != exp[0]);
    let o = run(v, &data, &Set::default());
    let p = o.px.map_err(|e| format!("{:?}: valid stream not decoded: {}", v, describe(&e)))?;
    let want = c.bytes_of(&exp);
    if p != want {
        let b = if c.img.prec > 8 { 2 } else { 1 };
        return Err(format!("{:?}: {}", v, diff(&p, &want, c.img.w, b * c.img.planes.len())));
    }
    Ok(())
}

/// Every predictor, precision and point transform on the smallest sizes.
fn c11_small(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let prec = t.u(2, 16) as u8;
    let (w, h) = (t.u(1, 5), t.u(1, 5));
    let pt = t.below(prec as usize) as u8;
    let max = (1u32 << prec) - 1;
    let mut b = t.bulk();
    let n = t.pick(&[1usize, 3, 4]);
    let ext = b.chance(1, 2);
    let planes = (0..n)
        .map(|_| (0..w * h).map(|_| if ext { [0, max, 1, max - 1][b.below(4)] as u16 } else { b.below(max as usize + 1) as u16 }).collect())
        .collect();
    let c = gen::LCase {
        img: LImage { w, h, prec, ids: (1..=n as u8).collect(), hv: (1, 1), planes },
        scans: vec![LScan {
            comps: (0..n).collect(),
            pred: t.u(1, 7) as u8,
            pt,
            ri_lines: if t.chance(1, 2) { t.u(1, h) } else { 0 },
            dc: vec![0; n],
            style: Style::Optimal,
            seed: 0,
        }],
    };
    let data = c.stream().bytes();
    r.input(&data);
    r.desc = format!("{:?} {}x{} comps={} precision={} pt={} pred={} ri={}", v, w, h, n, prec, pt, c.scans[0].pred, c.scans[0].ri_lines);
    let exp = c.expected_samples();
    r.nontrivial = exp.iter().any(|&x| x != exp[0]);
    let p = run(v, &data, &Set::default()).px.map_err(|e| format!("{:?}: valid stream not decoded: {}", v, describe(&e)))?;
    let want = c.bytes_of(&exp);
    if p != want {
        return Err(format!("{:?}: {:?} instead of {:?}", v, p, want));
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C11",
        rule: "sample arrays (noise, gradients, extremes; 1, 3, 4 components, precision 2..16, up to 400x200) encoded by the harness's lossless encoder with random predictor, point transform, restart interval of whole lines, tables and scan grouping; decoded bytes must equal the samples; non-trivial: not all samples equal",
        subs: vec![sub("main", c11, 180_000, 128), sub("huge", |t, r| gen::huge(|| c11(t, r)), 3_000, 128), sub("small", c11_small, 240_000, 48)],
        after: None,
        known: none,
        assumptions: &["restart intervals are multiples of the line length, as H.1.1 requires"],
    }]
}
