//! Pixel reconstruction: C04 inverse DCT, C08 upsampling, C09 colour decision, C10 colour
//! arithmetic, C13 scaled decoding, C27 bit-exact portable build.
use super::{none, sub};
use crate::dec::*;
use crate::enc::*;
use crate::gen::{self, Content, ImgOpts};
use crate::refs;
use crate::runner::{Check, Rec};
use crate::tape::Tape;

/// Override that returns the raw component samples (interleaved) of an n-component image;
/// the flag says they come back inverted.
pub fn raw_ct(n: usize) -> Option<(Ct, bool)> {
    match n {
        1 => None,
        3 => Some((Ct::Rgb, false)),
        _ => Some((Ct::Cmyk, true)),
    }
}

/// Raw upsampled component samples, interleaved, through an exact pass-through conversion.
pub fn raw_pixels(v: Var, data: &[u8], n: usize, mut s: Set) -> Result<(Vec<u8>, Info), String> {
    let rc = raw_ct(n);
    if let Some((c, _)) = rc {
        s.ct = Some(c);
    }
    let (mut p, i) = pixels(v, data, &s)?;
    if rc.map_or(false, |x| x.1) {
        p.iter_mut().for_each(|x| *x = 255 - *x);
    }
    Ok((p, i))
}

fn some_plan(t: &mut Tape, img: &Image) -> (Plan, &'static str) {
    match t.weighted(&[3, 2, 2]) {
        0 => (plain_plan(img), "plain"),
        1 => (gen::seq_plan(t, img), "sequential"),
        _ => (gen::prog_plan(t, img), "progressive"),
    }
}

/// Replace blocks by a DC level plus one or two basis functions.
fn basis_blocks(t: &mut Tape, img: &mut Image) {
    let mut b = t.bulk();
    for c in img.comps.iter_mut() {
        for blk in c.blocks.iter_mut() {
            *blk = [0; 64];
            let dc = b.range(-700, 700);
            blk[0] = (dc as f64 / c.q[0] as f64).round() as i16;
            for _ in 0..1 + b.below(2) {
                let z = 1 + b.below(63);
                let amp = b.range(-480, 480);
                blk[z] = (amp as f64 / c.q[z] as f64).round() as i16;
            }
        }
    }
}

/// Blocks whose samples lie up to some thousand levels outside the displayable range: everything is
/// clamped but where the few AC coefficients bring it back.
fn overbright(t: &mut Tape, img: &mut Image) {
    let mut b = t.bulk();
    let mut q = [0u16; 64];
    for q in q.iter_mut() {
        let most = if b.chance(1, 2) { 2000 } else { 100 };
        *q = 16 + b.below(most) as u16;
    }
    for c in img.comps.iter_mut() {
        c.q = q;
        for blk in c.blocks.iter_mut() {
            *blk = [0; 64];
            let dc = b.range(-50_000, 50_000) >> b.below(7);
            blk[0] = ((dc as f64 / c.q[0] as f64).round() as i16).clamp(-1023, 1023);
            for _ in 0..b.below(4) {
                let z = [1, 8, 9, 2, 16, 10, 17, 18, 3, 24, 27][b.below(11) as usize];
                let amp = b.range(-2_000, 2_000);
                blk[z] = (amp as f64 / c.q[z] as f64).round() as i16;
            }
        }
    }
}

// allowed |decoded - ideal| in levels
const TOL_SIMD: f64 = 0.9;
const TOL_FIXED: f64 = 0.8;
/// listed finding: the 16-bit vector kernel saturates in blocks of extreme AC content
const SATURATION: &str = "simd-idct-saturation";

/// Compare a plane (first w x h samples) with the ideal one; only blocks whose ideal samples are
/// near the displayable range count. Returns (max error, sum of signed errors, samples).
fn compare_plane(
    c: &Comp,
    n: usize,
    get: impl Fn(usize, usize) -> u8,
    w: usize,
    h: usize,
    tol: f64,
    simd: bool,
    known: &mut bool,
) -> Result<(f64, f64, usize), String> {
    let ideal = refs::plane_f64(c, n);
    let stride = c.bw * n;
    let (mut maxe, mut sum, mut cnt) = (0f64, 0f64, 0usize);
    for by in 0..cdiv(h, n) {
        for bx in 0..cdiv(w, n) {
            let blk = &c.blocks[by * c.bw + bx];
            let inside = (0..n * n).all(|i| {
                let v = ideal[(by * n + i / n) * stride + bx * n + i % n];
                (-64.0..=319.0).contains(&v)
            }) && (0..64).all(|i| (blk[i] as i64 * c.q[i] as i64).abs() <= 1400);
            // The reduced sizes are not restricted to displayable samples; far outside, the error may
            // grow in proportion (12-bit constants), up to where 32-bit arithmetic ends.
            let mass: i64 = (0..n * n).map(|i| (blk[i / n * 8 + i % n] as i64 * c.q[i / n * 8 + i % n] as i64).abs()).sum();
            if !inside && (n == 8 || mass > 60_000) {
                continue;
            }
            let tol = if inside { tol } else { tol + mass as f64 * 1.5e-4 };
            for y in by * n..((by + 1) * n).min(h) {
                for x in bx * n..((bx + 1) * n).min(w) {
                    let v = ideal[y * stride + x];
                    let got = get(x, y) as f64;
                    let e = got - v.clamp(0.0, 255.0);
                    if e.abs() > tol && simd && n == 8 && refs::simd_saturates(blk, &c.q) {
                        *known = true;
                        continue;
                    }
                    maxe = maxe.max(e.abs());
                    if v > 4.0 && v < 251.0 {
                        sum += e;
                        cnt += 1;
                    }
                    if e.abs() > tol {
                        let deq: Vec<i64> = (0..64).map(|i| blk[i] as i64 * c.q[i] as i64).collect();
                        return Err(format!("sample x={} y={}: decoded {}, ideal {:.3}; dequantised block {:?}", x, y, got, v, deq));
                    }
                }
            }
        }
    }
    Ok((maxe, sum, cnt))
}

fn c04(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let o = ImgOpts { ncomp: &[1, 1, 3, 4], content: Content::Pixels, big: true, sampling: 0, qmax: 100, ..gen::DEF };
    let (mut img, _) = gen::image(&mut t, &o);
    let basis = t.chance(1, 3);
    if basis {
        basis_blocks(&mut t, &mut img);
    }
    let (plan, kind) = some_plan(&mut t, &img);
    let data = encode(&img, &plan).bytes();
    r.input(&data);
    r.desc = format!("{:?} {} {}x{} comps={} basis={} q0={}", v, kind, img.w, img.h, img.comps.len(), basis, img.comps[0].q[0]);
    let n = img.comps.len();
    let (p, info) = raw_pixels(v, &data, n, Set::default())?;
    if (info.w as usize, info.h as usize) != (img.w, img.h) {
        return Err("wrong size".into());
    }
    let tol = if v.simd() { TOL_SIMD } else { TOL_FIXED };
    let (mut sum, mut cnt, mut known) = (0.0, 0, false);
    for (ci, c) in img.comps.iter().enumerate() {
        let (m, s, k) = compare_plane(c, 8, |x, y| p[(y * img.w + x) * n + ci], img.w, img.h, tol, v.simd(), &mut known)
            .map_err(|e| format!("{:?} component {}: {}", v, ci, e))?;
        r.num(if v.simd() { "max_err_simd" } else { "max_err_fixed" }, m);
        sum += s;
        cnt += k;
    }
    let _ = sum;
    if known {
        r.known.push(SATURATION.into());
    }
    r.nontrivial = cnt >= 64 && img.comps.iter().any(|c| c.blocks.iter().any(|b| b[1..].iter().any(|&x| x != 0)));
    r.class(format!("{:?}/{}", v, kind));
    if cnt > 0 {
        r.class("compared");
    }
    Ok(())
}

fn known_saturation(v: Var) -> bool {
    #[rustfmt::skip]
    let b: [i16; 64] = [0,57,0,-224,0,-70,0,-100,0,42,0,-165,0,0,0,-96,0,176,0,-714,0,-99,0,-294,0,-87,0,300,0,100,0,100,0,-38,0,
        196,0,0,0,100,0,0,0,-100,0,0,0,0,0,0,0,100,0,0,0,0,0,100,0,-300,0,-100,0,-100];
    let mut img = Image::new(8, 8, &[(1, 1, 1, 0)]);
    img.comps[0].blocks[0] = b;
    match pixels(v, &encode_plain(&img), &Set::default()) {
        Ok((p, _)) => p[5 * 8 + 1] > 3, // ideal: -17.3, so 0
        Err(_) => false,
    }
}

fn c04_known() -> Vec<(&'static str, bool)> {
    vec![(SATURATION, known_saturation(Var::Def))]
}

/// Systematic error over a larger area of noise-like content.
fn c04_bias(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let n = 8;
    let (w, h) = (8 * t.u(16, 24), 8 * t.u(12, 16));
    let mut img = Image::new(w, h, &[(1, 1, 1, 0)]);
    let q = 1 + t.below(6) as u16;
    img.comps[0].q = [q; 64];
    let mut b = t.bulk();
    let amp = 20.0 + 60.0 * b.f();
    for blk in img.comps[0].blocks.iter_mut() {
        let mean = 40.0 + 175.0 * b.f() - 128.0;
        let mut s = [0f64; 64];
        s.iter_mut().for_each(|x| *x = (mean + amp * (b.f() - 0.5)).clamp(-120.0, 120.0));
        let f = refs::fdct8(&s);
        for i in 0..64 {
            blk[i] = (f[i] / q as f64).round() as i16;
        }
    }
    let data = encode_plain(&img);
    r.input(&data);
    r.desc = format!("{:?} bias {}x{} q={}", v, w, h, q);
    r.nontrivial = true;
    let (p, _) = pixels(v, &data, &Set::default())?;
    let (_, s, k) = compare_plane(&img.comps[0], n, |x, y| p[y * w + x], w, h, 3.0, false, &mut false)?;
    // the error at each of the 64 positions as well
    let ideal = refs::plane_f64(&img.comps[0], 8);
    let mut pos = [(0f64, 0usize); 64];
    for y in 0..h {
        for x in 0..w {
            let e = p[y * w + x] as f64 - ideal[y * w + x];
            let k = (y % 8) * 8 + x % 8;
            pos[k].0 += e;
            pos[k].1 += 1;
        }
    }
    let mean = s / k.max(1) as f64;
    let worst = pos.iter().map(|x| (x.0 / x.1 as f64).abs()).fold(0.0, f64::max);
    r.num(if v.simd() { "bias_simd" } else { "bias_fixed" }, mean.abs());
    r.num(if v.simd() { "posbias_simd" } else { "posbias_fixed" }, worst);
    if mean.abs() > 0.035 {
        return Err(format!("{:?}: systematic error of {:.3} levels over {} samples", v, mean, k));
    }
    if worst > 0.16 {
        return Err(format!("{:?}: systematic error of {:.3} levels at one position of the block", v, worst));
    }
    Ok(())
}

/// Exact planes of each component (padded), obtained from the same build through grayscale streams.
pub fn planes_via_gray(v: Var, img: &Image, n: usize) -> Result<Vec<(Vec<u8>, usize)>, String> {
    let mut out = vec![];
    for c in &img.comps {
        let (w, h) = ((c.bw * 8).min(65535), (c.bh * 8).min(65535));
        let mut g = Image::new(w, h, &[(1, 1, 1, 0)]);
        g.comps[0].q = c.q;
        let gw = g.comps[0].bw;
        for (y, row) in g.comps[0].blocks.chunks_mut(gw).enumerate() {
            row.copy_from_slice(&c.blocks[y * c.bw..y * c.bw + gw]);
        }
        let s = if n == 8 { Set::default() } else { Set::scale(refs::scaled(w, n), refs::scaled(h, n)) };
        let (p, i) = pixels(v, &encode_plain(&g), &s)?;
        let st = refs::scaled(w, n);
        if i.w as usize != st || i.h as usize != refs::scaled(h, n) {
            return Err(format!("grayscale {}x{} scaled by {}/8 is {}x{}", w, h, n, i.w, i.h));
        }
        out.push((p, st));
    }
    Ok(out)
}

/// Expected interleaved raw samples of an image from its component planes (either treatment of
/// one-pixel axes is allowed, so two candidates may be returned).
pub fn assemble(img: &Image, planes: &[(Vec<u8>, usize)], n: usize) -> Vec<Vec<u8>> {
    let (ow, oh) = (refs::scaled(img.w, n), refs::scaled(img.h, n));
    let k = img.comps.len();
    let mut cands = vec![];
    for quirk in [true, false] {
        if !quirk && ow > 1 && oh > 1 {
            continue;
        }
        let mut o = vec![0u8; ow * oh * k];
        for (ci, c) in img.comps.iter().enumerate() {
            let (cw, ch) = (
                cdiv(img.w * c.h as usize * n, img.hmax as usize * 8),
                cdiv(img.h * c.v as usize * n, img.vmax as usize * 8),
            );
            let u = refs::upsample(
                &planes[ci].0, cw, ch, planes[ci].1,
                (img.hmax / c.h) as usize, (img.vmax / c.v) as usize, ow, oh, quirk,
            );
            for i in 0..ow * oh {
                o[i * k + ci] = u[i];
            }
        }
        cands.push(o);
    }
    cands
}

fn sampling_class(img: &Image) -> String {
    img.comps.iter().map(|c| format!("{}x{}", img.hmax / c.h, img.vmax / c.v)).collect::<Vec<_>>().join(",")
}

fn c08(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let o = ImgOpts { ncomp: &[3, 3, 4], content: Content::Mixed, big: true, sampling: 1, ..gen::DEF };
    let (img, _) = gen::image(&mut t, &o);
    let (plan, kind) = some_plan(&mut t, &img);
    let data = encode(&img, &plan).bytes();
    r.input(&data);
    r.desc = format!("{:?} {} {}x{} ratios {}", v, kind, img.w, img.h, sampling_class(&img));
    for c in &img.comps {
        r.class(format!("ratio {}x{}", img.hmax / c.h, img.vmax / c.v));
    }
    r.class(format!("{:?}/{}", v, kind));
    r.nontrivial = img.comps.iter().any(|c| (c.h, c.v) != (img.hmax, img.vmax)) && img.w * img.h > 1;
    let (p, info) = raw_pixels(v, &data, img.comps.len(), Set::default())?;
    if (info.w as usize, info.h as usize) != (img.w, img.h) {
        return Err("wrong size".into());
    }
    let planes = planes_via_gray(v, &img, 8)?;
    let c = assemble(&img, &planes, 8);
    if !c.contains(&p) {
        return Err(format!(
            "{:?} {}x{} ratios {}: {}", v, img.w, img.h, sampling_class(&img), diff(&p, &c[0], img.w, img.comps.len())
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

/// What the colour decision must be (statement of C09).
#[derive(Debug, Clone, PartialEq)]
pub enum Expect {
    Conv(Ct),
    Err(&'static str),
    /// combinations the property leaves open
    Open,
}

pub fn expect_colour(n: usize, ids: &[u8], jfif: bool, adobe: Option<u8>, over: Option<Ct>) -> Expect {
    let conv = |c: Ct| match (n, c) {
        (1, _) => Expect::Conv(Ct::Grayscale),
        (_, Ct::None) => Expect::Conv(Ct::None),
        (3, Ct::Rgb) | (3, Ct::YCbCr) | (4, Ct::Cmyk) | (4, Ct::Ycck) => Expect::Conv(c),
        (_, Ct::BgYcc) => Expect::Err("Unsupported(ColorTransform(JcsBgYcc))"),
        (_, Ct::BgRgb) => Expect::Err("Unsupported(ColorTransform(JcsBgRgb))"),
        _ => Expect::Err("Format"),
    };
    if n == 1 {
        return conv(Ct::Grayscale);
    }
    if let Some(c) = over {
        return conv(c);
    }
    if n == 3 {
        match ids {
            [1, 2, 3] => return conv(Ct::YCbCr),
            [1, 34, 35] => return conv(Ct::BgYcc),
            [82, 71, 66] => return conv(Ct::Rgb),
            [114, 103, 98] => return conv(Ct::BgRgb),
            _ => {}
        }
        if jfif {
            return conv(Ct::YCbCr);
        }
        return match adobe {
            Some(0) => conv(Ct::Rgb),
            Some(2) => Expect::Open,
            _ => conv(Ct::YCbCr),
        };
    }
    match adobe {
        None | Some(0) => conv(Ct::Cmyk),
        Some(2) => conv(Ct::Ycck),
        _ => Expect::Open,
    }
}

pub fn jfif_payload() -> Vec<u8> {
    b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0".to_vec()
}
pub fn adobe_payload(tr: u8) -> Vec<u8> {
    let mut v = b"Adobe\0".to_vec();
    v.extend_from_slice(&[100, 0, 0, 0, 0, tr]);
    v
}

/// Check `got` against the conversion `c` of raw samples.
pub fn conv_ok(c: Ct, raw: &[u8], got: &[u8], n: usize, exact: bool) -> Result<(), String> {
    for (i, (r, g)) in raw.chunks(n).zip(got.chunks(n)).enumerate() {
        let ok = match c {
            Ct::None | Ct::Grayscale | Ct::Rgb => r == g,
            Ct::Cmyk => (0..4).all(|k| g[k] == 255 - r[k]),
            Ct::YCbCr | Ct::Ycck => {
                (if exact {
                    refs::ycc_fixed(r[0], r[1], r[2])[..] == g[..3]
                } else {
                    refs::ycc_close(refs::ycc_real(r[0], r[1], r[2]), g)
                }) && (n == 3 || g[3] == 255 - r[3])
            }
            _ => false,
        };
        if !ok {
            return Err(format!("pixel {}: samples {:?} gave {:?} under {:?}", i, r, g, c));
        }
    }
    Ok(())
}

/// Segments with the decision-relevant APP markers in random order among inert ones.
fn decorate(t: &mut Tape, s: &mut Stream, jfif: bool, adobe: Option<u8>) {
    let mut segs: Vec<(u8, Vec<u8>)> = vec![];
    if jfif {
        segs.push((0, jfif_payload()));
    }
    if let Some(a) = adobe {
        let mut p = adobe_payload(a);
        // encoder version, flags0/1: irrelevant
        if t.chance(1, 2) {
            let mut b = t.bulk();
            for x in p[6..11].iter_mut() {
                *x = b.byte();
            }
        }
        if t.chance(1, 4) {
            p.extend_from_slice(&[1, 2, 3]);
        }
        segs.push((14, p));
    }
    // near misses
    if t.chance(1, 4) {
        segs.push((0, b"JFXX\0\x13".to_vec()));
    }
    if t.chance(1, 4) {
        let mut p = jfif_payload();
        p[t.below(5)] ^= t.pick(&[0x20u8, 1, 0x80]);
        segs.push((0, p));
    }
    if t.chance(1, 4) {
        let mut p = adobe_payload(t.below(3) as u8);
        p[t.below(6)] ^= t.pick(&[0x20u8, 1, 0x80]);
        segs.push((14, p));
    }
    if t.chance(1, 6) {
        // the right content under another marker
        let n = t.pick(&[1u8, 2, 3, 13, 15, 12]);
        segs.push((n, if t.chance(1, 2) { jfif_payload() } else { adobe_payload(t.below(3) as u8) }));
    }
    if t.chance(1, 6) {
        segs.push((14, b"Adobe\0\x64\0\0\0\0".to_vec())); // too short to carry a transform
    }
    if t.chance(1, 2) {
        t.shuffle(&mut segs);
    }
    // anywhere before the first scan, or anywhere at all
    let sos = s.find(Tag::Sos).unwrap();
    let late = t.below(4);
    for (i, (n, p)) in segs.into_iter().enumerate() {
        let at = match late {
            0 | 1 => (1 + i).min(sos),
            2 => (1 + t.below(sos)).clamp(1, sos),
            _ => {
                let at: Vec<usize> = (1..s.segs.len()).filter(|&i| s.segs[i].0 != Tag::Ecs).collect();
                t.pick(&at)
            }
        };
        s.insert_app(at, n, &p);
    }
}

fn c09(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let n = t.pick(&[3usize, 4, 3, 1]);
    let idsets: &[&[u8]] = match n {
        1 => &[&[1], &[0], &[82]],
        3 => &[&[1, 2, 3], &[82, 71, 66], &[0, 1, 2], &[1, 34, 35], &[114, 103, 98], &[3, 2, 1], &[1, 2, 4], &[82, 71, 67],
               &[1, 34, 36], &[2, 34, 35], &[114, 103, 66], &[66, 71, 82], &[1, 3, 2], &[0, 2, 3]],
        _ => &[&[1, 2, 3, 4], &[67, 77, 89, 75], &[0, 1, 2, 3], &[82, 71, 66, 65], &[1, 34, 35, 36]],
    };
    let mut ids = t.pick(idsets).to_vec();
    if t.chance(1, 6) {
        ids = gen::ids(&mut t, n, false);
    }
    let jfif = t.chance(1, 2);
    let adobe = t.pick(&[None, Some(0u8), Some(1), Some(2)]);
    let over = if t.chance(1, 3) { Some(t.pick(&CTS)) } else { None };
    let (w, h) = (t.u(1, 40), t.u(1, 12));
    let mode = if t.chance(1, 3) { 1 } else { 0 };
    let sf = gen::sampling(&mut t, n, mode, true);
    let mut img = Image::new(w, h, &(0..n).map(|i| (ids[i], sf[i].0, sf[i].1, 0)).collect::<Vec<_>>());
    gen::fill(&mut t, &mut img, &ImgOpts { content: Content::Pixels, ..gen::DEF });
    let mut st = encode(&img, &plain_plan(&img));
    decorate(&mut t, &mut st, jfif, adobe);
    let data = st.bytes();
    r.input(&data);
    let want = expect_colour(n, &ids, jfif, adobe, over);
    r.desc = format!("{:?} ids={:?} jfif={} adobe={:?} override={:?} -> {:?}", v, ids, jfif, adobe, over, want);
    r.nontrivial = want != Expect::Open;
    r.class(format!("{} comps {:?}", n, want));
    let o = run(v, &data, &Set { ct: over, ..Default::default() });
    match (want, o.px) {
        (_, Err(e)) if e.is_panic() => Err(e.kind()),
        (Expect::Open, _) => Ok(()),
        (Expect::Err(k), Err(e)) if e.kind() == k => Ok(()),
        (Expect::Err(k), Err(e)) => Err(format!("expected {}, got {}", k, describe(&e))),
        (Expect::Err(k), Ok(_)) => Err(format!("expected {}, got pixels", k)),
        (Expect::Conv(_), Err(e)) => Err(format!("not decoded: {}", describe(&e))),
        (Expect::Conv(c), Ok(p)) => {
            let (raw, _) = raw_pixels(v, &data, n, Set::default())?;
            conv_ok(c, &raw, &p, n, !v.simd())
        }
    }
}

// ---------------------------------------------------------------- C10

fn noise_image(t: &mut Tape, n: usize, w: usize, h: usize, sf: &[(u8, u8)]) -> Image {
    let mut img = Image::new(w, h, &(0..n).map(|i| (i as u8 + 1, sf[i].0, sf[i].1, 0)).collect::<Vec<_>>());
    let mut b = t.bulk();
    for c in img.comps.iter_mut() {
        let mode = b.below(4);
        for blk in c.blocks.iter_mut() {
            let flat = b.byte() as f64 - 128.0;
            let mut s = [0f64; 64];
            for x in s.iter_mut() {
                *x = match mode {
                    0 | 1 => b.byte() as f64 - 128.0,
                    2 => flat,
                    _ => if b.chance(1, 2) { 127.0 } else { -128.0 },
                };
            }
            let f = refs::fdct8(&s);
            for i in 0..64 {
                blk[i] = f[i].round().clamp(-1023.0, 1023.0) as i16;
            }
        }
    }
    img
}

fn c10(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let n = t.pick(&[3usize, 3, 3, 4]);
    let (w, h) = if gen::is_huge() {
        (t.u(1000, 65535), t.u(1, 3))
    } else if t.chance(1, 3) {
        (t.u(1, 600), t.u(1, 4))
    } else {
        (t.u(1, 70), t.u(1, 40))
    };
    let sf = if t.chance(1, 3) { gen::sampling(&mut t, n, 1, true) } else { vec![(1, 1); n] };
    let img = noise_image(&mut t, n, w, h, &sf);
    let data = encode_plain(&img);
    r.input(&data);
    let c = if n == 3 { t.pick(&[Ct::YCbCr, Ct::YCbCr, Ct::YCbCr, Ct::Rgb, Ct::None]) } else { t.pick(&[Ct::Ycck, Ct::Cmyk, Ct::None]) };
    r.desc = format!("{:?} {:?} {}x{}", v, c, w, h);
    r.class(format!("{:?}/{:?}", v, c));
    r.num("pixels", (w * h) as f64);
    r.nontrivial = true;
    let (raw, _) = raw_pixels(v, &data, n, Set::default())?;
    let (p, i) = pixels(v, &data, &Set::ct(c))?;
    if i.len() != raw.len() || p.len() != raw.len() {
        return Err("sizes differ between transforms".into());
    }
    if n == 3 && c == Ct::Rgb {
        // RGB is the reference here: tie it to the component planes themselves
        let planes = planes_via_gray(v, &img, 8)?;
        if !assemble(&img, &planes, 8).contains(&p) {
            return Err("RGB pass-through does not return the component samples".into());
        }
        return Ok(());
    }
    if n == 4 && c == Ct::Cmyk {
        let planes = planes_via_gray(v, &img, 8)?;
        let inv: Vec<u8> = p.iter().map(|x| 255 - x).collect();
        if !assemble(&img, &planes, 8).contains(&inv) {
            return Err("CMYK does not return the inverted component samples".into());
        }
        return Ok(());
    }
    conv_ok(c, &raw, &p, n, false).map_err(|e| format!("{:?} {}x{}: {}", v, w, h, e))
}

/// The conversion of a pixel does not depend on where it stands.
fn c10_position(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let (y, cb, cr) = (t.below(256) as u8, t.below(256) as u8, t.below(256) as u8);
    let (w, h) = (t.u(1, 140), t.u(1, 3));
    let mut img = Image::new(w, h, &[(1, 1, 1, 0), (2, 1, 1, 0), (3, 1, 1, 0)]);
    for (c, s) in img.comps.iter_mut().zip([y, cb, cr]) {
        c.q[0] = 8;
        for b in c.blocks.iter_mut() {
            b[0] = s as i16 - 128; // 8 * (s - 128) / 8 levels: flat s
        }
    }
    let data = encode_plain(&img);
    r.input(&data);
    r.desc = format!("{:?} flat ({},{},{}) {}x{}", v, y, cb, cr, w, h);
    r.nontrivial = w > 1;
    let (raw, _) = raw_pixels(v, &data, 3, Set::default())?;
    if raw.chunks(3).any(|c| c != [y, cb, cr]) {
        return Err(format!("flat blocks of ({},{},{}) decoded to {:?}", y, cb, cr, &raw[..3]));
    }
    let (p, _) = pixels(v, &data, &Set::default())?;
    // exact arithmetic may differ by at most one level between positions (vector body / remainder)
    let real = refs::ycc_real(y, cb, cr);
    for (i, c) in p.chunks(3).enumerate() {
        if !refs::ycc_close(real, c) {
            return Err(format!("{:?}: pixel {} of a flat ({},{},{}) image {} wide is {:?}, expected {:.2?}", v, i, y, cb, cr, w, c, real));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

const TOL_SCALED: [f64; 3] = [0.95, 0.6, 0.8]; // 1/8 (truncating), 1/4, 1/2

fn scale_request(t: &mut Tape, img_w: usize, img_h: usize, n: usize) -> (usize, usize) {
    let (a, b) = (refs::scaled(img_w, n), refs::scaled(img_h, n));
    match t.below(3) {
        0 => (a, b),
        1 => (a, 65535),
        _ => (65535, b),
    }
}

fn c13(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let want = t.pick(&[4usize, 2, 1]);
    let o = ImgOpts { ncomp: &[1, 3, 3, 4], content: Content::Mixed, big: true, sampling: 1, ..gen::DEF };
    let (mut img, px) = gen::image(&mut t, &o);
    let bright = t.chance(1, 5);
    if bright {
        overbright(&mut t, &mut img);
    } else if !px && t.chance(1, 2) {
        basis_blocks(&mut t, &mut img);
    }
    let (plan, kind) = some_plan(&mut t, &img);
    let data = encode(&img, &plan).bytes();
    r.input(&data);
    let (rw, rh) = scale_request(&mut t, img.w, img.h, want);
    let n = refs::choose_n(img.w, img.h, rw, rh);
    r.desc = format!("{:?} {} {}x{} request {}x{} -> {}/8 bright={} ratios {}", v, kind, img.w, img.h, rw, rh, n, bright, sampling_class(&img));
    r.class(format!("{:?} {}/8 bright={}", v, n, bright));
    r.nontrivial = n < 8 && img.w * img.h > 8;
    let k = img.comps.len();
    let (p, info) = raw_pixels(v, &data, k, Set::scale(rw, rh))?;
    if (info.w as usize, info.h as usize) != (refs::scaled(img.w, n), refs::scaled(img.h, n)) {
        return Err(format!("{}x{} at {}/8 is {}x{}", img.w, img.h, n, info.w, info.h));
    }
    let planes = planes_via_gray(v, &img, n)?;
    // components against the ideal
    if n < 8 {
        let tol = TOL_SCALED[[1, 2, 4].iter().position(|&x| x == n).unwrap()];
        for (ci, c) in img.comps.iter().enumerate() {
            let (pl, st) = &planes[ci];
            let (m, ..) = compare_plane(c, n, |x, y| pl[y * st + x], *st, pl.len() / st, tol, false, &mut false)
                .map_err(|e| format!("{:?} {}/8 component {}: {}", v, n, ci, e))?;
            r.num(["max_err_1", "max_err_2", "max_err_4"][[1, 2, 4].iter().position(|&x| x == n).unwrap()], m);
        }
    }
    let c = assemble(&img, &planes, n);
    if !c.contains(&p) {
        return Err(format!(
            "{:?} {}x{} at {}/8 ratios {}: {}", v, img.w, img.h, n, sampling_class(&img), diff(&p, &c[0], info.w as usize, k)
        ));
    }
    // and converted as at full size
    if k > 1 {
        let (q, _) = pixels(v, &data, &Set { ct: Some(if k == 3 { Ct::YCbCr } else { Ct::Ycck }), ..Set::scale(rw, rh) })?;
        conv_ok(if k == 3 { Ct::YCbCr } else { Ct::Ycck }, &p, &q, k, !v.simd())?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

fn c27(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&[Var::Pi, Var::PiNr]);
    let wild = t.chance(1, 3);
    let o = ImgOpts {
        ncomp: &[1, 3, 4],
        content: if wild { Content::Coefs } else { Content::Mixed },
        big: true,
        q16: true,
        qmax: 255,
        maxabs: 1023,
        ..gen::DEF
    };
    let (mut img, _) = gen::image(&mut t, &o);
    if wild {
        // AC values up to category 15, as the entropy coding allows
        let mut b = t.bulk();
        for c in img.comps.iter_mut() {
            for blk in c.blocks.iter_mut() {
                for x in blk[1..].iter_mut() {
                    if *x != 0 && b.chance(1, 4) {
                        *x = b.range(-32767, 32767) as i16;
                    }
                }
            }
        }
    }
    let (plan, kind) = if wild { (plain_plan(&img), "plain") } else { some_plan(&mut t, &img) };
    let data = encode(&img, &plan).bytes();
    r.input(&data);
    let k = img.comps.len();
    let want = t.pick(&[8usize, 8, 8, 4, 2, 1]);
    let (rw, rh) = scale_request(&mut t, img.w, img.h, want);
    let n = refs::choose_n(img.w, img.h, rw, rh);
    let set = if n == 8 { Set::default() } else { Set::scale(rw, rh) };
    r.desc = format!("{:?} {} {}x{} {}/8 wild={} ratios {}", v, kind, img.w, img.h, n, wild, sampling_class(&img));
    r.class(format!("{:?} {}/8 wild={}", v, n, wild));
    r.nontrivial = img.comps.iter().any(|c| c.blocks.iter().any(|b| b[1..].iter().any(|&x| x != 0)));
    let (p, info) = raw_pixels(v, &data, k, set.clone())?;
    let planes: Vec<_> = img.comps.iter().map(|c| (refs::plane_fixed(c, n), c.bw * n)).collect();
    let c = assemble(&img, &planes, n);
    if !c.contains(&p) {
        return Err(format!("{:?} {}/8: {}", v, n, diff(&p, &c[0], info.w as usize, k)));
    }
    if k > 1 {
        let ct = if k == 3 { Ct::YCbCr } else { Ct::Ycck };
        let (q, _) = pixels(v, &data, &Set { ct: Some(ct), ..set })?;
        conv_ok(ct, &p, &q, k, true)?;
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            rule: "images (1, 3, 4 components, no subsampling, 1..2000 px per axis) from random textures, or blocks of DC plus one or two basis functions, quantised with random tables and coded sequentially or progressively; each decoded sample is compared with the real-valued inverse DCT (tolerance 0.9 levels SIMD, 0.8 portable) for blocks whose ideal samples lie in -64..319; non-trivial: at least 64 compared samples and some AC coefficient (main), every bias case (mean error over >=12000 samples)",
            subs: vec![sub("main", c04, 120_000, 800), sub("huge", |t, r| gen::huge(|| c04(t, r)), 1_200, 800), sub("bias", c04_bias, 4_500, 32)],
            after: None,
            known: c04_known,
            assumptions: &["the encoder of the harness (T.81) is right; cross-checked by exact agreement of four decoder builds and reftests"],
        },
        Check {
            id: "C08",
            rule: "3- and 4-component images, sampling factors 1..4 with integer ratios, all sizes; expected pixels = reference upsampling of the component planes decoded alone as grayscale by the same build, exact; non-trivial: some component is subsampled and more than one pixel",
            subs: vec![sub("main", c08, 120_000, 800), sub("huge", |t, r| gen::huge(|| c08(t, r)), 1_200, 800)],
            after: None,
            known: none,
            assumptions: &["a one-pixel axis may be treated as full resolution"],
        },
        Check {
            id: "C09",
            rule: "all combinations of component count, ids (special and arbitrary), JFIF, Adobe transform, segment order, near-miss segments and override; expected conversion from the decision table, verified per pixel; non-trivial: the table decides the combination",
            subs: vec![sub("main", c09, 180_000, 128)],
            after: None,
            known: none,
            assumptions: &["Adobe transform 1 with 4 components and 2 with 3 components are left open"],
        },
        Check {
            id: "C10",
            rule: "noise images covering the sample cube (3 and 4 components, widths 1..600); raw samples obtained through the pass-through override and tied to the component planes; every pixel compared with the equations (within one level) or exact inversion/pass-through; flat images at every width; every case non-trivial except one-pixel-wide flat ones",
            subs: vec![sub("noise", c10, 120_000, 96), sub("huge", |t, r| gen::huge(|| c10(t, r)), 900, 96), sub("flat", c10_position, 60_000, 24)],
            after: None,
            known: none,
            assumptions: &[],
        },
        Check {
            id: "C13",
            rule: "DCT images of all samplings decoded at 1/2, 1/4, 1/8; component planes compared with the ideal N-point inverse DCT, the whole image with their exact reference upsampling, colour conversion per pixel; non-trivial: a reduced factor was chosen and the image has more than 8 pixels",
            subs: vec![sub("main", c13, 120_000, 800), sub("huge", |t, r| gen::huge(|| c13(t, r)), 750, 800)],
            after: None,
            known: none,
            assumptions: &[],
        },
        Check {
            id: "C27",
            rule: "images with arbitrary coefficients (AC up to +-32767, 16-bit tables) or textures, all scales, decoded by the platform_independent builds and compared bit for bit with an independent fixed-point model incl. upsampling and colour; non-trivial: some AC coefficient",
            subs: vec![sub("main", c27, 120_000, 800), sub("huge", |t, r| gen::huge(|| c27(t, r)), 1_200, 800)],
            after: None,
            known: none,
            assumptions: &["the fixed-point definition is stb_image's inverse DCT as named in src/idct.rs"],
        },
    ]
}
