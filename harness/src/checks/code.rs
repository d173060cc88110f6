//! Entropy coding: C05 layout independence, C06 progressive = sequential, C07 unfinished
//! progressive, C25 motion-JPEG tables, C26 tolerated decorations.
use super::pix::{jfif_payload, raw_ct};
use super::{none, sub};
use crate::dec::*;
use crate::enc::*;
use crate::gen::{self, Content, ImgOpts};
use crate::runner::{Check, Rec};
use crate::tape::Tape;

fn has_ac(img: &Image) -> bool {
    img.comps.iter().any(|c| c.blocks.iter().any(|b| b[1..].iter().any(|&x| x != 0)))
}

/// Colour settings that keep every component visible.
fn colour(t: &mut Tape, n: usize) -> Set {
    match (t.below(3), raw_ct(n)) {
        (0, _) | (_, None) => Set::default(),
        (1, _) => Set::ct(Ct::None),
        (_, Some((c, _))) => Set::ct(c),
    }
}

fn same(v: Var, a: &[u8], b: &[u8], s: &Set, what: &str) -> Result<(), String> {
    let (p, i) = pixels(v, a, s)?;
    let (q, j) = pixels(v, b, s).map_err(|e| format!("reference: {}", e))?;
    if (i.w, i.h, i.fmt) != (j.w, j.h, j.fmt) {
        return Err(format!("{:?}: info differs: {:?} and {:?}", v, i, j));
    }
    if p != q {
        return Err(format!("{:?} {}: {}", v, what, diff(&p, &q, i.w as usize, i.pb)));
    }
    Ok(())
}

/// Tables that a later definition supersedes, and tables nobody uses any more.
fn decoys(t: &mut Tape, st: &mut Stream) -> usize {
    let mut b = t.bulk();
    let mut out = vec![];
    let mut n = 0;
    let baseline = st.segs.iter().any(|s| s.0 == Tag::Sof && s.1[1] == 0xC0);
    for s in std::mem::take(&mut st.segs) {
        match s.0 {
            Tag::Dqt if b.chance(1, 2) => {
                let mut q = [1u16; 64];
                q.iter_mut().for_each(|x| *x = 1 + b.below(255) as u16);
                out.push((Tag::Other, seg(0xDB, &dqt_payload(s.1[4] & 15, &q, b.chance(1, 3)))));
                n += 1;
            }
            Tag::Dht if b.chance(1, 2) => {
                let f = [0u32; 256];
                for _ in 0..if b.chance(1, 60) { 1 + b.below(90) } else { 1 } {
                    let t = make_table(s.1[4] >> 4, false, &f, Style::Random, &mut b);
                    out.push((Tag::Other, seg(0xC4, &dht_payload(s.1[4] >> 4, s.1[4] & 15, &t))));
                    n += 1;
                }
            }
            Tag::Dri if b.chance(1, 2) => {
                out.push((Tag::Other, seg(0xDD, &[b.byte(), b.byte()])));
                n += 1;
            }
            Tag::Eoi if b.chance(1, 2) => {
                // after the last scan: no effect
                for slot in 0..4 {
                    let mut q = [1u16; 64];
                    q.iter_mut().for_each(|x| *x = 1 + b.below(255) as u16);
                    out.push((Tag::Other, seg(0xDB, &dqt_payload(slot, &q, false))));
                    if slot < 2 || !baseline {
                        let f = [0u32; 256];
                        for class in 0..2 {
                            let t = make_table(class, false, &f, Style::Random, &mut b);
                            out.push((Tag::Other, seg(0xC4, &dht_payload(class, slot, &t))));
                        }
                    }
                }
                out.push((Tag::Other, seg(0xDD, &[0, 1])));
                n += 1;
            }
            _ => {}
        }
        out.push(s);
    }
    st.segs = out;
    n
}

fn c05(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let o = ImgOpts { big: true, q16: true, qmax: 255, ..gen::DEF };
    let (img, _) = gen::image(&mut t, &o);
    let reference = encode_plain(&img);
    // the same image with every component's quantisation table in one slot, redefined between scans
    let share = img.comps.len() > 1 && t.chance(1, 4);
    let mut coded = img.clone();
    if share {
        let s = t.below(4) as u8;
        coded.comps.iter_mut().for_each(|c| c.tq = s);
    }
    let mut plan = gen::seq_plan(&mut t, &coded);
    if share && coded.comps.windows(2).any(|w| w[0].q != w[1].q) {
        // one scan per component, its table just before it
        plan.dqt_early = false;
        let mut scans = vec![];
        for sp in plan.scans {
            for (k, &c) in sp.comps.iter().enumerate() {
                scans.push(ScanPlan { comps: vec![c], dc: vec![sp.dc[k]], ac: vec![sp.ac[k]], ..sp.clone() });
            }
        }
        plan.scans = scans;
    }
    let mut st = encode(&coded, &plan);
    let n = if t.chance(1, 2) { decoys(&mut t, &mut st) } else { 0 };
    let data = st.bytes();
    r.input(&data);
    let set = colour(&mut t, img.comps.len());
    let rs = plan.scans.iter().any(|s| s.ri > 0);
    r.desc = format!(
        "{:?} {}x{} comps={} scans={:?} restarts={} styles={:?} shared-slot={} decoys={}",
        v, img.w, img.h, img.comps.len(), plan.scans.iter().map(|s| s.comps.clone()).collect::<Vec<_>>(), rs,
        plan.scans[0].style, share, n
    );
    r.class(format!("{:?} scans={} restarts={} sof{}", v, plan.scans.len(), rs, plan.sof & 15));
    if share {
        r.class("shared quantisation slot");
    }
    r.nontrivial = has_ac(&img) && data != reference;
    same(v, &data, &reference, &set, "encodings of the same coefficients")
}

fn c06(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let o = ImgOpts { big: true, q16: true, qmax: 255, ..gen::DEF };
    let (mut img, _) = gen::image(&mut t, &o);
    let share = t.chance(1, 4) && img.comps.len() > 1;
    let set = colour(&mut t, img.comps.len());
    let mut plan = gen::prog_plan(&mut t, &img);
    let reference = encode_plain(&img);
    if share {
        gen::one_by_one(&mut t, &mut img, &mut plan);
        r.class("shared quantisation slot");
    }
    let data = encode(&img, &plan).bytes();
    r.input(&data);
    let refine = plan.scans.iter().filter(|s| s.ah > 0).count();
    let rs = plan.scans.iter().any(|s| s.ri > 0);
    r.desc = format!(
        "{:?} {}x{} comps={} script={:?}", v, img.w, img.h, img.comps.len(),
        plan.scans.iter().take(12).map(|s| (s.comps.clone(), s.ss, s.se, s.ah, s.al)).collect::<Vec<_>>()
    );
    r.class(format!("{:?} refinements={} restarts={}", v, (refine > 0) as u8 + (refine > 5) as u8, rs));
    r.num("scans", plan.scans.len() as f64);
    r.nontrivial = has_ac(&img);
    same(v, &data, &reference, &set, "progressive and sequential")
}

fn c07(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let o = ImgOpts { big: true, q16: true, qmax: 255, ..gen::DEF };
    let (mut img, _) = gen::image(&mut t, &o);
    let share = t.chance(1, 4) && img.comps.len() > 1;
    let with_holes = t.chance(1, 3);
    let decoys = t.chance(1, 4);
    let at = t.raw();
    let set = colour(&mut t, img.comps.len());
    let mut plan = gen::prog_plan(&mut t, &img);
    plan.dqt_early = true;
    if share {
        gen::one_by_one(&mut t, &mut img, &mut plan);
    }
    let all = plan.scans.len();
    if with_holes {
        gen::holes(&mut t, &img, &mut plan);
    }
    let n = plan.scans.len();
    let k = 1 + ((at as u64 * n as u64) >> 32) as usize;
    let mut st = encode(&img, &plan);
    let mut seen = 0;
    let mut cut = st.segs.len();
    for (i, s) in st.segs.iter().enumerate() {
        if s.0 == Tag::Ecs {
            seen += 1;
            if seen == k {
                cut = i + 1;
                break;
            }
        }
    }
    st.segs.truncate(cut);
    if share {
        // a component without a scan has no table of its own: none but the last one defined
        let last = img.comps[plan.scans[k - 1].comps[0]].q;
        for c in 0..img.comps.len() {
            if !plan.scans[..k].iter().any(|s| s.comps.contains(&c)) {
                img.comps[c].q = last;
            }
        }
    }
    if decoys {
        // after the last scan: no effect
        let mut b = t.bulk();
        for slot in 0..4 {
            let mut q = [1u16; 64];
            q.iter_mut().for_each(|x| *x = 1 + b.below(255) as u16);
            st.segs.push((Tag::Other, seg(0xDB, &dqt_payload(slot, &q, false))));
        }
    }
    st.segs.push((Tag::Eoi, vec![0xFF, 0xD9]));
    let data = st.bytes();
    r.input(&data);
    let mut got = gen::received(&img, &plan, k);
    // a DC value truncated towards minus infinity can leave the range sequential coding has; the
    // common power of two then goes into the quantiser, which leaves every product as it is
    for c in got.comps.iter_mut() {
        while c.blocks.iter().any(|b| !(-1023..=1023).contains(&b[0])) {
            if c.blocks.iter().any(|b| b[0] & 1 != 0) || c.q[0] > 32767 {
                return Ok(());
            }
            c.q[0] *= 2;
            c.blocks.iter_mut().for_each(|b| b[0] >>= 1);
            r.class("DC beyond the sequential range");
        }
    }
    for i in 0..got.comps.len() {
        // tables may now differ per component
        got.comps[i].tq = i as u8;
    }
    let covered: Vec<bool> = (0..img.comps.len()).map(|c| plan.scans[..k].iter().any(|s| s.comps.contains(&c))).collect();
    r.desc = format!(
        "{:?} {}x{} {} of {} scans ({} of the whole script), components with data {:?} shared-slot={} decoys={}", v, img.w, img.h, k, n, all, covered, share, decoys
    );
    r.class(format!("{:?} cut={} holes={} empty-component={}", v, k < n, n < all, covered.contains(&false)));
    if share {
        r.class("shared quantisation slot");
    }
    r.nontrivial = k < all && has_ac(&img);
    same(v, &data, &encode_plain(&got), &set, "unfinished progressive and its received coefficients")
}

// ---------------------------------------------------------------- C25

pub fn avi1_payload(t: &mut Tape) -> Vec<u8> {
    let mut v = b"AVI1\0".to_vec();
    if t.chance(2, 3) {
        let n = t.u(0, 40);
        let mut b = t.bulk();
        v.extend(b.bytes(n));
    }
    v
}

fn c25(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let o = ImgOpts { big: true, qmax: 255, ..gen::DEF };
    let (img, _) = gen::image(&mut t, &o);
    let mut plan = gen::seq_plan(&mut t, &img);
    if t.chance(2, 3) {
        plan.sof = 0xC0;
    }
    let custom = if t.chance(1, 2) { t.below(16) as u8 } else { 0 };
    for s in plan.scans.iter_mut() {
        s.style = Style::Mix(custom);
        s.reuse = false;
        s.dc.iter_mut().chain(s.ac.iter_mut()).for_each(|x| *x &= 1);
    }
    let full = encode(&img, &plan);
    // omit a subset of the standard tables (every definition of them)
    let omit = (if t.chance(1, 2) { 15 } else { 1 + t.below(15) as u8 }) & !custom;
    let mut omitted = 0;
    let mut st = Stream { segs: vec![] };
    for s in &full.segs {
        if s.0 != Tag::Dht {
            st.segs.push(s.clone());
            continue;
        }
        let mut keep = vec![];
        let p = &s.1[4..];
        let mut i = 0;
        while i < p.len() {
            let n = 17 + p[i + 1..i + 17].iter().map(|&x| x as usize).sum::<usize>();
            if omit >> ((p[i] >> 4) * 2 + (p[i] & 15)) & 1 == 1 {
                omitted += 1;
            } else {
                keep.extend_from_slice(&p[i..i + n]);
            }
            i += n;
        }
        if !keep.is_empty() {
            st.segs.push((Tag::Dht, seg(0xC4, &keep)));
        }
    }
    let mark = t.chance(3, 4);
    let jfif = t.chance(1, 3);
    if mark {
        let p = avi1_payload(&mut t);
        let sos = st.find(Tag::Sos).unwrap();
        let at = if t.chance(1, 2) { 1 } else { 1 + t.below(sos) };
        st.insert_app(at, 0, &p);
    } else if t.chance(1, 2) {
        // almost AVI1
        st.insert_app(1, 0, t.pick(&[b"AVI2\0aaaa".to_vec(), b"AVI1aaaaa".to_vec(), b"AVI1".to_vec(), b"avi1\0".to_vec()]).as_slice());
    }
    let mut full = full;
    if jfif {
        st.insert_app(1, 0, &jfif_payload());
        full.insert_app(1, 0, &jfif_payload());
    }
    let data = st.bytes();
    r.input(&data);
    r.desc = format!(
        "{:?} {}x{} comps={} AVI1={} omitted {} tables, custom mask {:04b}, {} scans", v, img.w, img.h, img.comps.len(), mark, omitted,
        custom, plan.scans.len()
    );
    r.class(format!("AVI1={} omitted={} custom={} sof{}", mark, omitted.min(4), custom != 0, plan.sof & 15));
    r.nontrivial = omitted > 0;
    if mark || omitted == 0 {
        same(v, &data, &full.bytes(), &Set::default(), "omitted and written standard tables")
    } else {
        match run(v, &data, &Set::default()).px {
            Err(Fail::Format(_)) => Ok(()),
            Err(e) => Err(format!("missing Huffman table without AVI1: {}", describe(&e))),
            Ok(_) => Err("missing Huffman table without AVI1 was decoded".into()),
        }
    }
}

// ---------------------------------------------------------------- C26

/// Bytes that contain no marker; never ending in an open 0xFF.
fn garbage(t: &mut Tape) -> Vec<u8> {
    let n = match t.weighted(&[30, 20, 9, 1]) {
        0 => t.u(1, 4),
        1 => t.u(5, 20),
        2 => t.u(21, 300),
        _ => {
            let e = t.u(9, 17);
            t.u(301, 1 << e)
        }
    };
    // stuffed 0xFF bytes: many, few, none
    let every = t.pick(&[12u32, 2, 400, 0]);
    let mut b = t.bulk();
    let mut v = vec![];
    while v.len() < n {
        let x = b.byte();
        if every > 0 && (x == 0xFF || b.chance(1, every)) {
            v.extend_from_slice(&[0xFF, 0]);
        } else if x != 0xFF {
            v.push(x);
        }
    }
    v
}

fn c26(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let a = gen::any_stream(&mut t, &ImgOpts { big: true, ..gen::DEF }, true);
    let mut clean = a.stream.clone();
    if t.chance(1, 2) {
        clean.insert_app(1, 1, b"Exif\0\0MM\0*\0\0\0\x08");
        clean.insert_app(2, 2, b"ICC_PROFILE\0\x01\x01profile");
    }
    let want = run(v, &clean.bytes(), &Set::default());
    if let Err(e) = &want.px {
        return Err(format!("valid stream not decoded: {}", describe(e)));
    }
    let what = 1 + t.below(15);
    let (fill, junk, rst, tail) = (what & 1 != 0, what & 2 != 0, what & 4 != 0, what & 8 != 0);
    let mut out: Vec<u8> = vec![];
    let mut b = t.bulk();
    let (mut nf, mut nj, mut nr) = (0, 0, 0);
    let mut prev = Tag::Other;
    for s in &clean.segs {
        match s.0 {
            Tag::Soi => out.extend_from_slice(&s.1),
            Tag::Ecs => {
                // fill bytes before the restart markers inside
                let mut i = 0;
                while i < s.1.len() {
                    if fill && s.1[i] == 0xFF && s.1[i + 1] != 0 && b.chance(1, 2) {
                        let m = if b.chance(1, 40) { 1 << b.below(12) } else { 4 };
                        for _ in 0..1 + b.below(m) {
                            out.push(0xFF);
                        }
                        nf += 1;
                    }
                    let n = if s.1[i] == 0xFF { 2 } else { 1 };
                    out.extend_from_slice(&s.1[i..i + n]);
                    i += n;
                }
                if rst && b.chance(2, 3) {
                    out.extend_from_slice(&[0xFF, 0xD0 + b.below(8) as u8]);
                    nr += 1;
                }
            }
            _ => {
                if junk && (prev != Tag::Ecs || b.chance(1, 2)) && b.chance(1, 2) {
                    out.extend(garbage(&mut t));
                    nj += 1;
                }
                if fill && b.chance(1, 2) {
                    let m = if b.chance(1, 8) { 600 } else if b.chance(1, 40) { 1 << b.below(18) } else { 4 };
                    for _ in 0..1 + b.below(m) {
                        out.push(0xFF);
                    }
                    nf += 1;
                }
                out.extend_from_slice(&s.1);
            }
        }
        prev = s.0;
    }
    if tail {
        let most = if b.chance(1, 20) { 200_000 } else { 300 };
        let n = 1 + b.below(most);
        if b.chance(1, 3) {
            out.extend(clean.bytes());
        } else {
            out.extend(b.bytes(n));
        }
    }
    r.input(&out);
    r.desc = format!("{:?} {} {}x{} fills={} garbage={} rst={} tail={}", v, a.kind, a.w, a.h, nf, nj, nr, tail);
    r.class(format!("{} fill={} garbage={} rst={} tail={}", a.kind, nf > 0, nj > 0, nr > 0, tail));
    r.nontrivial = nf + nj + nr > 0 || tail;
    let got = run(v, &out, &Set::default());
    if got != want {
        return Err(match (&got.px, &want.px) {
            (Err(e), _) => format!("{:?} {}: decorated stream: {}", v, a.kind, describe(e)),
            (Ok(p), Ok(q)) => {
                let i = want.info.unwrap();
                format!("{:?} {}: {} info {:?} / {:?}", v, a.kind, diff(p, q, i.w as usize, i.pb), got.info, want.info)
            }
            _ => "outcome differs".into(),
        });
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    let _ = Content::Mixed;
    vec![
        Check {
            id: "C05",
            rule: "random coefficient arrays (textures or arbitrary values, 8/16-bit tables, all samplings, 1..2000 px) written once plainly and once with random Huffman tables, slots, table placement and splitting, restart intervals, scan grouping, SOF0/SOF1, superseded and trailing tables; pixels must be equal; non-trivial: some AC coefficient and the two streams differ",
            subs: vec![sub("main", c05, 180_000, 880), sub("huge", |t, r| gen::huge(|| c05(t, r)), 1_500, 880)],
            after: None,
            known: none,
            assumptions: &["both streams come from the harness's encoder; its agreement with the standard is anchored by C04/C27, where absolute values are checked"],
        },
        Check {
            id: "C06",
            rule: "random coefficient arrays crossed with random complete legal progressive scripts (bands, approximation up to bit 13, scan order, EOB runs up to 32767, restarts, grouping) against the plain sequential stream; non-trivial: some AC coefficient",
            subs: vec![sub("main", c06, 125_000, 1400), sub("huge", |t, r| gen::huge(|| c06(t, r)), 1_750, 1400)],
            after: None,
            known: none,
            assumptions: &[],
        },
        Check {
            id: "C07",
            rule: "progressive scripts cut after k>=1 scans and ended by EOI, against the plain sequential stream of the coefficients received (T.81 G.1.2 point transform); non-trivial: k smaller than the number of scans and some AC coefficient",
            subs: vec![sub("main", c07, 150_000, 1400), sub("huge", |t, r| gen::huge(|| c07(t, r)), 1_500, 1400)],
            after: None,
            known: none,
            assumptions: &["all quantisation tables are defined before the cut"],
        },
        Check {
            id: "C25",
            rule: "sequential images coded with Annex K tables (optionally some custom ones), any subset of the standard tables omitted, with AVI1 / near-miss / no APP0; with AVI1 equal to the full stream, without it a Format error; non-trivial: at least one table omitted",
            subs: vec![sub("main", c25, 150_000, 800), sub("huge", |t, r| gen::huge(|| c25(t, r)), 450, 800)],
            after: None,
            known: none,
            assumptions: &[],
        },
        Check {
            id: "C26",
            rule: "valid streams of every process decorated with fill bytes (also before RSTn inside scans), garbage between segments, a superfluous RSTn after scans, trailing bytes; whole outcome (pixels, info, metadata) must be equal; non-trivial: at least one decoration",
            subs: vec![sub("main", c26, 150_000, 1040), sub("huge", |t, r| gen::huge(|| c26(t, r)), 600, 1040)],
            after: None,
            known: none,
            assumptions: &[],
        },
    ]
}
