//! Structured generators: images, encodings and scan scripts, as pure functions of a tape.
use crate::enc::*;
use crate::refs;
use crate::tape::{Bulk, Tape};
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Content {
    /// quantised DCT of 8-bit samples
    Pixels,
    /// arbitrary legal coefficients
    Coefs,
    /// either
    Mixed,
}

#[derive(Clone)]
pub struct ImgOpts {
    /// allowed component counts (first = simplest)
    pub ncomp: &'static [usize],
    pub content: Content,
    /// also generate widths that take the worker-thread path and other large sizes
    pub big: bool,
    /// largest quantiser for pixel content
    pub qmax: u16,
    /// allow 16-bit quantisers with coefficient content
    pub q16: bool,
    /// subsampling: 0 none, 1 any supported
    pub sampling: u8,
    /// keep every interleaving possible (at most 10 blocks per MCU)
    pub max10: bool,
    pub std_ids: bool,
    /// all coefficient magnitudes at most this
    pub maxabs: i64,
}

pub const DEF: ImgOpts = ImgOpts {
    ncomp: &[1, 3, 3, 4],
    content: Content::Mixed,
    big: false,
    qmax: 100,
    q16: false,
    sampling: 1,
    max10: false,
    std_ids: false,
    maxabs: 1023,
};

thread_local! {
    static HUGE: Cell<bool> = Cell::new(false);
}

/// Runs a case with every image drawn from the huge sizes.
pub fn huge<R>(f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            HUGE.with(|h| h.set(false));
        }
    }
    HUGE.with(|h| h.set(true));
    let _r = Reset;
    f()
}

pub fn is_huge() -> bool {
    HUGE.with(|h| h.get())
}

/// One axis up to the format's limit of 65535, or an area of more than 16384 blocks.
fn huge_dims(t: &mut Tape) -> (usize, usize) {
    let long = |t: &mut Tape| match t.below(4) {
        0 => t.pick(&[2048usize, 4096, 8192, 16384, 32768, 65528, 65535]) - t.below(9),
        1 => (t.pick(&[2048usize, 4096, 8192, 16384, 32768, 65520]) + 1 + t.below(9)).min(65535),
        2 => t.u(1025, 65535),
        _ => 65535 - t.below(16),
    };
    match t.below(5) {
        0 | 1 => (long(t), t.u(1, 20)),
        2 => (long(t), t.pick(&[1usize, 2, 8, 9, 16, 17, 33, 40])),
        3 => (t.u(1, 40), long(t)),
        _ => {
            let max = if t.chance(1, 8) { 2200 } else { 1500 };
            (t.u(900, max), t.u(900, max))
        }
    }
}

pub fn dims(t: &mut Tape, big: bool) -> (usize, usize) {
    if is_huge() {
        return huge_dims(t);
    }
    let one = |t: &mut Tape| match t.weighted(&[4, 3, 4]) {
        0 => t.u(1, 9),
        1 => t.u(1, 40),
        _ => (8 * t.u(1, 6)) as i64 as usize + t.u(0, 2) - 1,
    };
    match t.weighted(&[12, if big { 3 } else { 0 }, if big { 1 } else { 0 }]) {
        0 => (one(t), one(t)),
        1 => (t.u(120, 300), t.u(1, 40)),
        _ => match t.below(3) {
            0 => (t.u(1, 20), t.u(200, 900)),
            1 => (t.u(300, 2000), t.u(1, 12)),
            _ => (t.u(129, 260), t.u(60, 130)),
        },
    }
}

pub fn sampling(t: &mut Tape, n: usize, mode: u8, max10: bool) -> Vec<(u8, u8)> {
    let f = match if mode == 0 { 0 } else { t.weighted(&[3, 4, 6]) } {
        0 => {
            let hv = if t.chance(1, 6) { (t.u(1, 4) as u8, t.u(1, 4) as u8) } else { (1, 1) };
            vec![hv; n]
        }
        1 => {
            let y = t.pick(&[(2, 2), (2, 1), (1, 2), (4, 1), (4, 2), (1, 4)]);
            let mut v = vec![(1, 1); n];
            v[0] = y;
            if n == 4 {
                v[3] = if t.chance(1, 3) { (1, 1) } else { y };
            }
            v
        }
        _ => {
            let hm = t.pick(&[2u8, 1, 4, 3, 2]);
            let vm = t.pick(&[2u8, 1, 4, 3, 2]);
            let divs = |m: u8| (1..=m).filter(|d| m % d == 0).collect::<Vec<u8>>();
            let mut v: Vec<(u8, u8)> = (0..n).map(|_| (t.pick(&divs(hm)), t.pick(&divs(vm)))).collect();
            // the maxima are reached somewhere, not necessarily by the same component
            let i = t.below(n);
            v[i].0 = hm;
            let j = if t.chance(1, 3) { t.below(n) } else { i };
            v[j].1 = vm;
            v
        }
    };
    if max10 && n > 1 && f.iter().map(|x| x.0 as usize * x.1 as usize).sum::<usize>() > 10 {
        return vec![(1, 1); n];
    }
    f
}

pub fn ids(t: &mut Tape, n: usize, std: bool) -> Vec<u8> {
    if std || t.chance(2, 3) {
        return (1..=n as u8).collect();
    }
    let mut b = t.bulk();
    let mut v: Vec<u8> = vec![];
    while v.len() < n {
        let x = b.byte();
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

#[rustfmt::skip]
const STDQ: [u16; 64] = [16,11,10,16,24,40,51,61,12,12,14,19,26,58,60,55,14,13,16,24,40,57,69,56,14,17,22,29,51,87,80,62,
    18,22,37,56,68,109,103,77,24,35,55,64,81,104,113,92,49,64,78,87,103,121,120,101,72,92,95,98,112,100,103,99];

pub fn qtable(t: &mut Tape, qmax: u16, q16: bool) -> [u16; 64] {
    let kind = t.weighted(&[3, 2, 3, 3, if q16 { 2 } else { 0 }]);
    let mut b = t.bulk();
    let mut q = [1u16; 64];
    match kind {
        0 => {}
        1 => {
            let v = 1 + b.below(qmax.min(16) as usize) as u16;
            q = [v; 64];
        }
        2 => {
            let m = 1 + b.below(qmax.min(255) as usize);
            q.iter_mut().for_each(|x| *x = 1 + b.below(m) as u16);
        }
        3 => {
            let sc = 1 + b.below(8) as u16;
            for i in 0..64 {
                q[i] = (STDQ[i] * sc / 4).clamp(1, qmax);
            }
        }
        _ => {
            q.iter_mut().for_each(|x| {
                *x = if b.chance(1, 3) { 1 + b.below(65535) as u16 } else { 1 + b.below(300) as u16 }
            });
        }
    }
    q
}

/// A plane of 8-bit samples of some texture.
pub fn plane(b: &mut Bulk, w: usize, h: usize) -> Vec<u8> {
    let kind = b.below(7);
    let base = b.byte() as i32;
    let (gx, gy) = (b.range(-6, 6) as i32, b.range(-6, 6) as i32);
    let per = 1 + b.below(6);
    let amp = 1 + b.below(255);
    (0..w * h)
        .map(|i| {
            let (x, y) = (i % w, i / w);
            let v = match kind {
                0 => base,
                1 => base + gx * x as i32 + gy * y as i32,
                2 => b.byte() as i32,
                3 => if (x / per + y / per) % 2 == 0 { base } else { 255 - base },
                4 => base + b.range(-(amp as i64) / 2, amp as i64 / 2) as i32,
                5 => if (x * 3 + y * 5) % (per * 7 + 2) < per * 2 { 255 } else { 0 },
                _ => base + gx * x as i32 + b.range(-20, 20) as i32,
            };
            v.clamp(0, 255) as u8
        })
        .collect()
}

fn fill_pixels(c: &mut Comp, b: &mut Bulk) {
    let (w, h) = (c.bw * 8, c.bh * 8);
    let p = plane(b, w, h);
    for by in 0..c.bh {
        for bx in 0..c.bw {
            let mut s = [0f64; 64];
            for i in 0..64 {
                s[i] = p[(by * 8 + i / 8) * w + bx * 8 + i % 8] as f64 - 128.0;
            }
            let f = refs::fdct8(&s);
            let blk = &mut c.blocks[by * c.bw + bx];
            for i in 0..64 {
                blk[i] = (f[i] / c.q[i] as f64).round().clamp(-1023.0, 1023.0) as i16;
            }
        }
    }
}

fn fill_coefs(c: &mut Comp, b: &mut Bulk, maxabs: i64) {
    let style = b.below(6);
    let maxbits = [2, 4, 7, 10, 10, 15][b.below(6)];
    let lim = maxabs.min(1023);
    let mut dc = 0i64;
    for blk in c.blocks.iter_mut() {
        *blk = [0; 64];
        let dense = match style {
            0 => 0,
            1 => 2,
            2 => 6,
            3 => 20,
            4 => 63,
            _ => b.below(64),
        };
        for _ in 0..dense {
            let z = if style == 4 || b.chance(1, 2) { 1 + b.below(63) } else { 1 + b.below(12) };
            let m = 1i64 << b.below(maxbits as usize + 1).min(15);
            blk[ZZ[z]] = b.range(-m, m).clamp(-maxabs, maxabs) as i16;
        }
        if b.chance(1, 6) {
            blk[63] = b.range(-2, 2).clamp(-maxabs, maxabs) as i16;
        }
        dc = if b.chance(1, 4) { b.range(-lim, lim) } else { (dc + b.range(-30, 30)).clamp(-lim, lim) };
        blk[0] = dc as i16;
    }
}

/// Mostly empty blocks: runs of them may span the whole image.
fn fill_sparse(c: &mut Comp, b: &mut Bulk, maxabs: i64) {
    let (nd, na) = ([2, 30, 3000][b.below(3)], [3, 60, 3000, 60_000][b.below(4)]);
    let lim = (maxabs.min(1000) as f64 / c.q[0] as f64).max(1.0) as i64;
    let mut dc = 0;
    for blk in c.blocks.iter_mut() {
        if b.chance(1, nd) {
            dc = (dc + b.range(-200, 200) / c.q[0] as i64).clamp(-lim, lim);
        }
        blk[0] = dc as i16;
        if b.chance(1, na) {
            for _ in 0..1 + b.below(3) {
                let z = 1 + b.below(63);
                let m = 1 << b.below(8);
                blk[ZZ[z]] = (b.range(-m, m) / c.q[ZZ[z]].min(8) as i64).clamp(-maxabs, maxabs) as i16;
            }
        }
    }
}

pub fn fill(t: &mut Tape, img: &mut Image, o: &ImgOpts) -> bool {
    if is_huge() && t.chance(3, 4) {
        let mut b = t.bulk();
        for c in img.comps.iter_mut() {
            fill_sparse(c, &mut b, o.maxabs);
        }
        return false;
    }
    let pixels = match o.content {
        Content::Pixels => true,
        Content::Coefs => false,
        Content::Mixed => t.chance(1, 2),
    };
    let mut b = t.bulk();
    for c in img.comps.iter_mut() {
        if pixels {
            fill_pixels(c, &mut b);
        } else {
            fill_coefs(c, &mut b, o.maxabs);
        }
    }
    pixels
}

/// (image, pixel-derived content?)
pub fn image(t: &mut Tape, o: &ImgOpts) -> (Image, bool) {
    let n = t.pick(o.ncomp);
    let (mut w, mut h) = dims(t, o.big);
    let sf = sampling(t, n, o.sampling, o.max10);
    // bound the amount of work for extreme factors
    let blocks = |w: usize, h: usize| {
        let (hm, vm) = (sf.iter().map(|x| x.0).max().unwrap() as usize, sf.iter().map(|x| x.1).max().unwrap() as usize);
        cdiv(w, 8 * hm) * cdiv(h, 8 * vm) * sf.iter().map(|x| x.0 as usize * x.1 as usize).sum::<usize>()
    };
    if is_huge() {
        while blocks(w, h) > 40_000 {
            if w.min(h) > 800 {
                w = w * 7 / 8;
                h = h * 7 / 8;
            } else if w > h && h > 1 {
                h = (h - 1) * 3 / 4 + 1;
                if h > 1 {
                    h -= 1;
                }
            } else if w > 1 && h >= w {
                w = (w - 1) * 3 / 4 + 1;
                if w > 1 {
                    w -= 1;
                }
            } else {
                break;
            }
        }
    } else {
        while blocks(w, h) > 1500 {
            if w > h {
                w = w * 2 / 3;
            } else {
                h = h * 2 / 3;
            }
        }
    }
    let id = ids(t, n, o.std_ids);
    let nq = if n == 1 { 1 } else { t.u(1, n) };
    let slots: Vec<u8> = {
        let mut s = vec![0u8, 1, 2, 3];
        if t.chance(1, 4) {
            t.shuffle(&mut s);
        }
        s
    };
    let mut tables = vec![];
    for _ in 0..nq {
        tables.push(qtable(t, o.qmax, o.q16));
    }
    let cs: Vec<_> = (0..n)
        .map(|i| {
            let k = i.min(nq - 1);
            (id[i], sf[i].0, sf[i].1, slots[k])
        })
        .collect();
    let mut img = Image::new(w, h, &cs);
    for i in 0..n {
        img.comps[i].q = tables[i.min(nq - 1)];
    }
    let px = fill(t, &mut img, o);
    (img, px)
}

fn style(t: &mut Tape) -> Style {
    t.pick(&[Style::Optimal, Style::Std, Style::Random, Style::Random])
}

fn restart(t: &mut Tape, mcus: usize) -> usize {
    match t.weighted(&[4, 2, 2, 1, 1]) {
        0 => 0,
        1 => t.u(1, 3),
        2 => t.u(1, mcus.clamp(1, 65535)),
        3 => t.pick(&[65535usize, 1, 8, 9]),
        // a power of two more than an interval that matters here
        _ => ((1usize << t.u(4, 15)) + t.u(0, mcus.min(30_000))).min(65535),
    }
}

pub fn mcus(img: &Image, comps: &[usize]) -> usize {
    if comps.len() > 1 {
        img.mx * img.my
    } else {
        let c = &img.comps[comps[0]];
        c.nbw() * c.nbh()
    }
}

/// Random partition of the components into scans (each in frame order, at most 10 blocks when interleaved).
pub fn groups(t: &mut Tape, img: &Image) -> Vec<Vec<usize>> {
    let n = img.comps.len();
    let size = |g: &[usize]| g.iter().map(|&i| img.comps[i].h as usize * img.comps[i].v as usize).sum::<usize>();
    let mut gs: Vec<Vec<usize>> = vec![];
    let all = t.chance(1, 2);
    for i in 0..n {
        let cand: Vec<usize> = (0..gs.len())
            .filter(|&k| {
                let mut g = gs[k].clone();
                g.push(i);
                size(&g) <= 10
            })
            .collect();
        if !cand.is_empty() && (all || t.chance(1, 2)) {
            let k = cand[t.below(cand.len())];
            gs[k].push(i);
        } else {
            gs.push(vec![i]);
        }
    }
    if t.chance(1, 3) {
        t.shuffle(&mut gs);
    }
    gs
}

fn slots(t: &mut Tape, n: usize, max: usize) -> Vec<u8> {
    let simple = t.chance(1, 3);
    (0..n).map(|i| if simple { (i > 0) as u8 } else { t.below(max) as u8 }).collect()
}

pub fn seq_plan(t: &mut Tape, img: &Image) -> Plan {
    let baseline = t.chance(1, 2);
    let nslot = if baseline { 2 } else { 4 };
    let gs = groups(t, img);
    let mut scans = vec![];
    for g in gs {
        let ri = restart(t, mcus(img, &g));
        let n = g.len();
        scans.push(ScanPlan {
            dc: slots(t, n, nslot),
            ac: slots(t, n, nslot),
            comps: g,
            ss: 0,
            se: 63,
            ah: 0,
            al: 0,
            ri,
            style: style(t),
            seed: t.raw() as u64,
            maxeob: 1,
            split_dht: t.chance(1, 2),
            reuse: t.chance(1, 2),
        });
    }
    // with a shared table slot redefined between scans the tables cannot all come first
    let conflict = {
        let mut cur: [Option<[u16; 64]>; 4] = [None; 4];
        let mut bad = false;
        for c in &img.comps {
            let s = &mut cur[c.tq as usize];
            bad |= s.is_some() && *s != Some(c.q);
            *s = Some(c.q);
        }
        bad
    };
    Plan {
        sof: if baseline { 0xC0 } else { 0xC1 },
        scans,
        dqt_early: !conflict && t.chance(1, 2),
        dqt16: t.chance(1, 4),
        split_dqt: t.chance(1, 2),
        // tables before SOF are not subject to the baseline slot limit, but the scan is
        dht_early: t.chance(1, 3),
        dri_early: t.chance(1, 3),
        eoi: true,
        no_dht: false,
    }
}

/// A complete, legal progressive scan script in a random order.
pub fn prog_plan(t: &mut Tape, img: &Image) -> Plan {
    let n = img.comps.len();
    // per queue: scans that must come in order; queues are merged randomly
    let mut dcq: Vec<Vec<(Vec<usize>, u8, u8)>> = vec![]; // (comps, ah, al)
    if n == 1 || t.chance(1, 2) {
        for g in groups(t, img) {
            let a = if is_huge() { t.below(3) as u8 } else { t.pick(&[0u8, 1, 2, 1, 3, 5, 1, 0, 8, 13]) };
            let mut q = vec![(g.clone(), 0, a)];
            for l in (0..a).rev() {
                q.push((g.clone(), l + 1, l));
            }
            dcq.push(q);
        }
    } else {
        // one level for all, regrouped at every level
        let a = t.pick(&[1u8, 0, 2, 3]);
        let mut q = vec![];
        for g in groups(t, img) {
            q.push((g, 0, a));
        }
        for l in (0..a).rev() {
            for g in groups(t, img) {
                q.push((g, l + 1, l));
            }
        }
        dcq.push(q);
    }
    let bands = |t: &mut Tape| {
        let k = t.weighted(if is_huge() { &[4, 4] } else { &[4, 4, 2, 1] });
        let mut cuts: Vec<u8> = (0..k).map(|_| t.u(1, 62) as u8).collect();
        if k == 3 && t.chance(1, 3) {
            cuts = (1..63).collect(); // one coefficient per band
        }
        cuts.sort();
        cuts.dedup();
        let mut v = vec![];
        let mut s = 1u8;
        for c in cuts {
            v.push((s, c));
            s = c + 1;
        }
        v.push((s, 63));
        v
    };
    // AC queues per component
    let mut acq: Vec<Vec<Vec<(u8, u8, u8, u8)>>> = vec![]; // component -> queues of (ss,se,ah,al)
    for _ in 0..n {
        let level = if is_huge() { t.pick(&[0u8, 1, 2]) } else { t.pick(&[0u8, 1, 2, 1, 3, 6, 10, 0, 1, 13]) };
        let mut queues = vec![];
        if t.chance(1, 2) {
            // bands refined independently
            for (s, e) in bands(t) {
                let a = if t.chance(1, 3) { t.u(0, 3) as u8 } else { level };
                let mut q = vec![(s, e, 0, a)];
                for l in (0..a).rev() {
                    q.push((s, e, l + 1, l));
                }
                queues.push(q);
            }
        } else {
            // common level, new bands at every level
            let mut q = vec![];
            for (s, e) in bands(t) {
                q.push((s, e, 0, level));
            }
            for l in (0..level).rev() {
                for (s, e) in bands(t) {
                    q.push((s, e, l + 1, l));
                }
            }
            queues.push(q);
        }
        acq.push(queues);
    }
    // merge: a component's AC scans wait for its first DC scan
    let mut scans: Vec<ScanPlan> = vec![];
    let mut dci = vec![0usize; dcq.len()];
    let mut aci: Vec<Vec<usize>> = acq.iter().map(|q| vec![0; q.len()]).collect();
    let mut dc_seen = vec![false; n];
    loop {
        let mut cand: Vec<(bool, usize, usize)> = vec![];
        for (i, q) in dcq.iter().enumerate() {
            if dci[i] < q.len() {
                cand.push((true, i, 0));
            }
        }
        for c in 0..n {
            if dc_seen[c] {
                for k in 0..acq[c].len() {
                    if aci[c][k] < acq[c][k].len() {
                        cand.push((false, c, k));
                    }
                }
            }
        }
        if cand.is_empty() {
            break;
        }
        let (isdc, i, k) = cand[t.below(cand.len())];
        let (comps, ss, se, ah, al) = if isdc {
            let (g, ah, al) = dcq[i][dci[i]].clone();
            dci[i] += 1;
            for &c in &g {
                dc_seen[c] = true;
            }
            (g, 0, 0, ah, al)
        } else {
            let (s, e, ah, al) = acq[i][k][aci[i][k]];
            aci[i][k] += 1;
            (vec![i], s, e, ah, al)
        };
        let ri = if t.chance(1, 2) { scans.last().map_or(0, |s: &ScanPlan| s.ri) } else { restart(t, mcus(img, &comps)) };
        let m = comps.len();
        let st = t.pick(&[Style::Optimal, Style::Random, Style::Optimal]);
        scans.push(ScanPlan {
            dc: slots(t, m, 4),
            ac: slots(t, m, 4),
            comps,
            ss,
            se,
            ah,
            al,
            ri,
            style: st,
            seed: t.raw() as u64,
            maxeob: if is_huge() { t.pick(&[32767u32, 32767, 16384, 1000]) } else { t.pick(&[32767u32, 1, 3, 1000]) },
            split_dht: t.chance(1, 4),
            reuse: t.chance(1, 3),
        });
    }
    Plan {
        sof: 0xC2,
        scans,
        dqt_early: t.chance(1, 2),
        dqt16: t.chance(1, 4),
        split_dqt: t.chance(1, 3),
        dht_early: t.chance(1, 4),
        dri_early: t.chance(1, 4),
        eoi: true,
        no_dht: false,
    }
}

/// The same script with one component per scan, all scans of a component before those of the next:
/// then the components may use one quantisation table slot, redefined in between (B.2.2).
pub fn one_by_one(t: &mut Tape, img: &mut Image, plan: &mut Plan) {
    let slot = t.below(4) as u8;
    img.comps.iter_mut().for_each(|c| c.tq = slot);
    let mut order: Vec<usize> = (0..img.comps.len()).collect();
    t.shuffle(&mut order);
    let mut scans = vec![];
    for c in order {
        for sp in &plan.scans {
            if let Some(k) = sp.comps.iter().position(|&x| x == c) {
                scans.push(ScanPlan { comps: vec![c], dc: vec![sp.dc[k]], ac: vec![sp.ac[k]], ..sp.clone() });
            }
        }
    }
    plan.scans = scans;
    plan.dqt_early = false;
}

/// Leaves out scans of a progressive script, and the scans that build upon them.
pub fn holes(t: &mut Tape, img: &Image, plan: &mut Plan) {
    let (num, den) = t.pick(&[(1u32, 3u32), (1, 10), (2, 3)]);
    let mut b = t.bulk();
    let mut lvl = vec![[99u8; 64]; img.comps.len()];
    let mut scans = vec![];
    for sp in std::mem::take(&mut plan.scans) {
        let fits = sp.comps.iter().all(|&c| {
            (sp.ss == 0 || lvl[c][0] != 99)
                && (sp.ss..=sp.se).all(|z| lvl[c][z as usize] == if sp.ah == 0 { 99 } else { sp.ah })
        });
        if !fits || (!scans.is_empty() && b.chance(num, den)) {
            continue;
        }
        for &c in &sp.comps {
            for z in sp.ss..=sp.se {
                lvl[c][z as usize] = sp.al;
            }
        }
        scans.push(sp);
    }
    plan.scans = scans;
}

/// Coefficients as known after the first k scans of a progressive plan (G.1.2).
pub fn received(img: &Image, plan: &Plan, k: usize) -> Image {
    let n = img.comps.len();
    let mut lvl = vec![[99u8; 64]; n]; // zig-zag
    for sp in &plan.scans[..k] {
        for &c in &sp.comps {
            for z in sp.ss..=sp.se {
                lvl[c][z as usize] = sp.al;
            }
        }
    }
    let mut r = img.clone();
    for (ci, c) in r.comps.iter_mut().enumerate() {
        for b in c.blocks.iter_mut() {
            for z in 0..64 {
                let a = lvl[ci][z];
                let v = &mut b[ZZ[z]];
                *v = if a == 99 {
                    0
                } else if z == 0 {
                    (*v >> a) << a
                } else {
                    let m = ((*v as i32).abs() >> a) << a;
                    (if *v < 0 { -m } else { m }) as i16
                };
            }
        }
    }
    r
}

#[derive(Clone, Debug)]
pub struct LCase {
    pub img: LImage,
    pub scans: Vec<LScan>,
}

/// precision range lo..=hi
pub fn lossless(t: &mut Tape, ncomp: &[usize], lo: usize, hi: usize, big: bool) -> LCase {
    let n = t.pick(ncomp);
    let (w, h) = dims(t, big);
    let (w, h) = if is_huge() {
        let k = 300_000 / n;
        if w > h { (w, h.min(k / w + 1)) } else { (w.min(k / h + 1), h) }
    } else {
        (w.min(400), h.min(200))
    };
    let prec = if t.chance(1, 3) && lo <= 8 && hi >= 8 { 8 } else { t.u(lo, hi) as u8 };
    let id = ids(t, n, false);
    let hv = if t.chance(1, 5) && n == 1 { (t.u(1, 4) as u8, t.u(1, 4) as u8) } else { (1, 1) };
    let maxv = (1u32 << prec) - 1;
    let mut b = t.bulk();
    let planes = (0..n)
        .map(|_| {
            let kind = b.below(5);
            let base = b.below(maxv as usize + 1) as i64;
            let amp = 1i64 << b.below(prec as usize);
            let (gx, gy) = (b.range(-amp, amp), b.range(-amp, amp));
            (0..w * h)
                .map(|i| {
                    let (x, y) = ((i % w) as i64, (i / w) as i64);
                    let v = match kind {
                        0 => b.below(maxv as usize + 1) as i64,
                        1 => base + gx * x + gy * y,
                        2 => base + b.range(-amp, amp),
                        3 => if b.chance(1, 2) { 0 } else { maxv as i64 },
                        _ => base,
                    };
                    v.clamp(0, maxv as i64) as u16
                })
                .collect()
        })
        .collect();
    let img = LImage { w, h, prec, ids: id, hv, planes };
    let mut gs: Vec<Vec<usize>> = vec![];
    if n == 1 || t.chance(2, 3) {
        gs.push((0..n).collect());
    } else {
        for i in 0..n {
            if !gs.is_empty() && t.chance(1, 2) {
                let k = t.below(gs.len());
                gs[k].push(i);
            } else {
                gs.push(vec![i]);
            }
        }
        t.shuffle(&mut gs);
    }
    let scans = gs
        .into_iter()
        .map(|g| {
            let k = g.len();
            let pt = if t.chance(1, 3) { t.below(prec as usize) as u8 } else { 0 };
            let ri_lines = match t.below(12) {
                0..=3 => t.u(1, h.max(1)),
                4 => t.u(1, (65535 / w).max(1)),
                _ => 0,
            };
            let ri_lines = if ri_lines * w > 65535 { 0 } else { ri_lines };
            LScan {
                comps: g,
                pred: t.u(1, 7) as u8,
                pt,
                ri_lines,
                dc: (0..k).map(|_| t.below(4) as u8).collect(),
                style: t.pick(&[Style::Optimal, Style::Random]),
                seed: t.raw() as u64,
            }
        })
        .collect();
    LCase { img, scans }
}

impl LCase {
    pub fn stream(&self) -> Stream {
        encode_lossless(&self.img, &self.scans)
    }
    /// samples after the point transform: x >> pt << pt, interleaved
    pub fn expected_samples(&self) -> Vec<u16> {
        let n = self.img.planes.len();
        let mut pt = vec![0; n];
        for s in &self.scans {
            for &c in &s.comps {
                pt[c] = s.pt;
            }
        }
        let mut v = Vec::with_capacity(self.img.w * self.img.h * n);
        for i in 0..self.img.w * self.img.h {
            for c in 0..n {
                v.push(self.img.planes[c][i] >> pt[c] << pt[c]);
            }
        }
        v
    }
    pub fn bytes_of(&self, s: &[u16]) -> Vec<u8> {
        if self.img.prec <= 8 {
            s.iter().map(|&x| x as u8).collect()
        } else {
            s.iter().flat_map(|x| x.to_ne_bytes()).collect()
        }
    }
}

/// Any valid stream with a standard colour interpretation, for the checks that only need "a stream".
pub struct Any {
    pub stream: Stream,
    pub kind: &'static str,
    pub w: usize,
    pub h: usize,
    pub ncomp: usize,
    pub prec: u8,
    /// DCT content is displayable (pixel-derived)
    pub px: bool,
    pub img: Option<Image>,
}

pub fn any_stream(t: &mut Tape, o: &ImgOpts, lossless_too: bool) -> Any {
    match t.weighted(&[4, 3, if lossless_too { 2 } else { 0 }]) {
        k @ (0 | 1) => {
            let (img, px) = image(t, o);
            let plan = if k == 0 { seq_plan(t, &img) } else { prog_plan(t, &img) };
            let stream = encode(&img, &plan);
            Any {
                stream,
                kind: if k == 0 { "sequential" } else { "progressive" },
                w: img.w,
                h: img.h,
                ncomp: img.comps.len(),
                prec: 8,
                px,
                img: Some(img),
            }
        }
        _ => {
            let ncomp: &[usize] = o.ncomp;
            let n = t.pick(ncomp);
            // more than one component is generated up to 8 bits: see the known finding on wide multi-component lossless
            let c = if n == 1 { lossless(t, &[1], 2, 16, o.big) } else { lossless(t, &[n], 2, 8, o.big) };
            Any {
                stream: c.stream(),
                kind: "lossless",
                w: c.img.w,
                h: c.img.h,
                ncomp: n,
                prec: c.img.prec,
                px: true,
                img: None,
            }
        }
    }
}

// ---------------------------------------------------------------- corruption

/// Make every possible frame header in the bytes small enough to be decoded quickly.
pub fn clamp_frames(d: &mut [u8], b: &mut Bulk) {
    for i in 0..d.len().saturating_sub(8) {
        if d[i] == 0xFF && (0xC0..=0xCF).contains(&d[i + 1]) && ![0xC4, 0xC8, 0xCC].contains(&d[i + 1]) {
            match b.below(8) {
                0 => {
                    d[i + 5] = 0;
                    d[i + 6] &= 0x1F;
                }
                1 => {
                    d[i + 7] = 0;
                    d[i + 8] &= 0x1F;
                }
                _ => {
                    d[i + 5] &= 1;
                    d[i + 7] &= 1;
                }
            }
        }
    }
}

/// Segment-level and byte-level damage to a valid stream. Returns the bytes and what was done.
pub fn corrupt(t: &mut Tape, st: &Stream) -> (Vec<u8>, String) {
    let mut segs = st.segs.clone();
    let n = 1 + t.weighted(&[4, 3, 2, 1]);
    let mut what = String::new();
    for _ in 0..n {
        let k = t.weighted(&[6, 6, 2, 2, 2, 3, 3, 2, 2, 2, 2, 2]);
        let ecs: Vec<usize> = (0..segs.len()).filter(|&i| segs[i].0 == Tag::Ecs && !segs[i].1.is_empty()).collect();
        let hdr: Vec<usize> = (0..segs.len()).filter(|&i| segs[i].0 != Tag::Ecs && segs[i].1.len() > 4).collect();
        if segs.is_empty() {
            break;
        }
        let mut b = t.bulk();
        let pos = t.raw();
        let at = |n: usize| ((pos as u64 * n as u64) >> 32) as usize;
        match k {
            // a byte in a header segment
            0 if !hdr.is_empty() => {
                let s = &mut segs[hdr[at(hdr.len())]];
                let far = if b.chance(1, 2) { 20 } else { 2000 };
                let i = 2 + b.below((s.1.len() - 2).min(far));
                let x = match b.below(4) {
                    0 => b.byte(),
                    1 => s.1[i] ^ (1 << b.below(8)),
                    2 => s.1[i].wrapping_add(1),
                    _ => [0, 0xFF, 1, 0x7F, 0x80, 0x10, 0x11, 0xF0][b.below(8)],
                };
                what += &format!(" {:?}[{}]={:02x}", s.0, i, x);
                s.1[i] = x;
            }
            // entropy-coded data
            1 if !ecs.is_empty() => {
                let s = &mut segs[ecs[at(ecs.len())]];
                for _ in 0..1 + b.below(8) {
                    let i = b.below(s.1.len());
                    match b.below(3) {
                        0 => s.1[i] ^= 1 << b.below(8),
                        1 => s.1[i] = b.byte(),
                        _ => s.1[i] = 0xFF,
                    }
                }
                what += " ecs-bytes";
            }
            2 if !ecs.is_empty() => {
                let s = &mut segs[ecs[at(ecs.len())]];
                let i = b.below(s.1.len());
                s.1.truncate(i);
                what += " ecs-cut";
            }
            3 if !ecs.is_empty() => {
                let s = &mut segs[ecs[at(ecs.len())]];
                let i = b.below(s.1.len());
                let m = b.below(20);
                let x = b.bytes(m);
                s.1.splice(i..i, x);
                what += " ecs-insert";
            }
            4 if !ecs.is_empty() => {
                let s = &mut segs[ecs[at(ecs.len())]];
                let i = b.below(s.1.len());
                let m = [0xD0 + b.below(8) as u8, 0xD9, 0xDA, 0x01, 0xC4, b.byte()][b.below(6)];
                s.1.splice(i..i, [0xFF, m]);
                what += &format!(" ecs-marker-{:02x}", m);
            }
            5 => {
                let i = at(segs.len());
                what += &format!(" drop-{:?}", segs[i].0);
                segs.remove(i);
            }
            6 => {
                let i = at(segs.len());
                let j = b.below(segs.len() + 1);
                what += &format!(" dup-{:?}", segs[i].0);
                let s = segs[i].clone();
                segs.insert(j, s);
            }
            7 => {
                let i = at(segs.len());
                let j = b.below(segs.len());
                what += " swap";
                segs.swap(i, j);
            }
            8 if !hdr.is_empty() => {
                let s = &mut segs[hdr[at(hdr.len())]];
                let l = u16::from_be_bytes([s.1[2], s.1[3]]);
                let l2 = match b.below(4) {
                    0 => b.below(65536) as u16,
                    1 => l.wrapping_add(1 + b.below(3) as u16),
                    2 => l.wrapping_sub(1 + b.below(3) as u16),
                    _ => b.below(4) as u16,
                };
                s.1[2..4].copy_from_slice(&l2.to_be_bytes());
                what += &format!(" length-{:?}", s.0);
            }
            9 => {
                // another marker code for the same segment
                let i = at(segs.len());
                if segs[i].0 != Tag::Ecs && segs[i].1.len() > 1 {
                    let m = [0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xC9, 0xCC, 0xDC, 0xDD, 0xDE, 0xE0, 0xE1, 0xE2, 0xEE, 0xFE, 0xF0, 0x01, 0xD8, 0xD9, 0xD3]
                        [b.below(21)];
                    segs[i].1[1] = m;
                    what += &format!(" recode-{:02x}", m);
                }
            }
            10 => {
                // an extra table or interval
                let i = at(segs.len() + 1);
                let s = match b.below(4) {
                    0 => seg(0xDD, &[b.byte() & b.byte(), b.byte() & b.byte()]),
                    1 => {
                        let mut q = [1u16; 64];
                        q.iter_mut().for_each(|x| *x = 1 + b.below(65535) as u16);
                        seg(0xDB, &dqt_payload(b.below(4) as u8, &q, true))
                    }
                    2 => {
                        let f = [0u32; 256];
                        let class = b.below(2) as u8;
                        let tb = make_table(class, false, &f, Style::Random, &mut b);
                        seg(0xC4, &dht_payload(class, b.below(4) as u8, &tb))
                    }
                    _ => seg(0xE0, b"AVI1\0"),
                };
                segs.insert(i, (Tag::Other, s));
                what += " extra";
            }
            11 => {
                let i = at(segs.len());
                segs.truncate(i);
                if b.chance(1, 2) {
                    segs.push((Tag::Eoi, vec![0xFF, 0xD9]));
                }
                what += " cut";
            }
            _ => {
                // bytes anywhere
                let i = at(segs.len());
                if !segs[i].1.is_empty() {
                    let j = b.below(segs[i].1.len());
                    segs[i].1[j] = b.byte();
                    what += &format!(" byte-{:?}", segs[i].0);
                }
            }
        }
    }
    let mut d: Vec<u8> = segs.into_iter().flat_map(|s| s.1).collect();
    let mut b = t.bulk();
    clamp_frames(&mut d, &mut b);
    (d, what)
}

/// A valid stream (2 of 3) or a damaged one.
pub fn stream_or_corrupt(t: &mut Tape, o: &ImgOpts) -> (Vec<u8>, bool, Any, String) {
    let bad = t.chance(1, 3);
    let mut a = any_stream(t, o, true);
    meta_some(t, &mut a.stream);
    let (d, w) = if bad { corrupt(t, &a.stream) } else { (a.stream.bytes(), String::new()) };
    (d, !bad, a, w)
}

/// Now and then some metadata segments.
pub fn meta_some(t: &mut Tape, s: &mut Stream) {
    if !t.chance(1, 3) {
        return;
    }
    let mut b = t.bulk();
    let sos = s.find(Tag::Sos).unwrap_or(1);
    for _ in 0..1 + b.below(4) {
        let at = if b.chance(1, 4) { s.segs.len() - 1 } else { 1 + b.below(sos) };
        // never between a scan header and its data
        if s.segs[at].0 == Tag::Ecs {
            continue;
        }
        let n = b.below(40);
        let mut p: Vec<u8>;
        let k = match b.below(8) {
            0 => {
                p = b"Exif\0\0".to_vec();
                1
            }
            1 => {
                p = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
                1
            }
            2 => {
                p = b"ICC_PROFILE\0\x01\x01".to_vec();
                2
            }
            3 => {
                p = b"JFIF\0".to_vec();
                0
            }
            4 => {
                p = b"Photoshop 3.0\0".to_vec();
                13
            }
            5 => {
                // transform 0 is valid for any number of components
                p = b"Adobe\0\x64\0\0\0\0\0".to_vec();
                14
            }
            6 => {
                s.segs.insert(at, (Tag::Other, seg(0xFE, &b.bytes(n))));
                continue;
            }
            _ => {
                p = b"whatever".to_vec();
                b.below(14) as u8
            }
        };
        p.extend(b.bytes(n));
        s.insert_app(at, k, &p);
    }
}
