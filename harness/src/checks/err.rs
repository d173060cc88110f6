//! Rejection: C23 unsupported features are named, C24 syntax violations are Format errors.
use super::{none, sub};
use crate::dec::*;
use crate::enc::*;
use crate::gen::{self, ImgOpts};
use crate::runner::{Check, Rec};
use crate::tape::Tape;

/// What the SOF segment of a stream says: (index, marker, payload components offset).
fn sof_at(s: &Stream) -> usize {
    s.find(Tag::Sof).unwrap()
}
fn sof_code(s: &Stream) -> u8 {
    s.segs[sof_at(s)].1[1]
}
fn reseg(marker: u8, payload: &[u8]) -> Vec<u8> {
    seg(marker, payload)
}
fn all(s: &Stream, t: Tag) -> Vec<usize> {
    (0..s.segs.len()).filter(|&i| s.segs[i].0 == t).collect()
}
/// Places for an extra segment in front of segs[i].
fn places(s: &Stream, lo: usize) -> Vec<usize> {
    (lo..s.segs.len()).filter(|&i| s.segs[i].0 != Tag::Ecs).collect()
}

fn sizes(t: &mut Tape) -> (usize, usize) {
    (t.u(2, 40), t.u(2, 40))
}

/// A frame of any Huffman process with the given components, all data coded as plain sequential or DC-only progressive.
fn frame(sof: u8, w: usize, h: usize, comps: &[(u8, u8, u8, u8)]) -> Stream {
    let img = Image::new(w, h, comps);
    let mut plan = plain_plan(&img);
    plan.sof = sof;
    if sof == 0xC2 {
        for s in &mut plan.scans {
            s.se = 0;
        }
    }
    encode(&img, &plan)
}

// ---------------------------------------------------------------- C23

fn c23(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let k = t.below(14);
    let mut a = gen::any_stream(&mut t, &gen::DEF, true);
    gen::meta_some(&mut t, &mut a.stream);
    let mut s = a.stream.clone();
    let sof = sof_at(&s);
    // (feature, expected error or None for supported, must read_info fail too)
    let (name, want, info_fails): (String, Option<String>, bool);
    match k {
        0 => {
            // arithmetic coding processes
            let m = t.pick(&[0xC9u8, 0xCA, 0xCB]);
            if m != 0xCB && a.kind == "lossless" {
                s.segs[sof].1[4] = 8;
            }
            if m == 0xCB {
                // lossless frames name table 0
                let n = a.ncomp;
                for i in 0..n {
                    s.segs[sof].1[4 + 6 + 3 * i + 2] = 0;
                }
            }
            s.segs[sof].1[1] = m;
            (name, want, info_fails) = (format!("SOF {:02x}", m), Some("ArithmeticEntropyCoding".into()), true);
        }
        1 => {
            let m = t.pick(&[0xC5u8, 0xC6, 0xC7, 0xCD, 0xCE, 0xCF]);
            if m & 3 != 3 && a.kind == "lossless" {
                s.segs[sof].1[4] = 8;
            }
            if m & 3 == 3 {
                let n = a.ncomp;
                for i in 0..n {
                    s.segs[sof].1[4 + 6 + 3 * i + 2] = 0;
                }
            }
            s.segs[sof].1[1] = m;
            (name, want, info_fails) = (format!("SOF {:02x}", m), Some("Hierarchical".into()), true);
        }
        2 | 3 => {
            // DAC, DHP, EXP anywhere
            let pl = places(&s, 1);
            let at = t.pick(&pl);
            let (m, p): (u8, Vec<u8>) = match t.below(3) {
                0 => (0xCC, vec![0x00, 0x10, 0x10, 5]),
                1 => (0xDE, s.segs[sof].1[4..].to_vec()),
                _ => (0xDF, vec![0x11]),
            };
            s.segs.insert(at, (Tag::Other, seg(m, &p)));
            let w = if m == 0xCC { "ArithmeticEntropyCoding" } else { "Hierarchical" };
            (name, want, info_fails) = (format!("{:02x} segment", m), Some(w.into()), at <= sof);
        }
        4 => {
            // a second frame
            let pl: Vec<usize> = places(&s, sof + 1);
            let at = t.pick(&pl);
            let mut x = s.segs[sof].clone();
            if t.chance(1, 2) {
                x.1[1] = t.pick(&[0xC0u8, 0xC1, 0xC2, 0xC3, 0xC5, 0xC9]);
            }
            s.segs.insert(at, x);
            (name, want, info_fails) = ("second frame".into(), Some("Hierarchical".into()), false);
        }
        5 => {
            // 12-bit DCT
            let (w, h) = sizes(&mut t);
            let n = t.pick(&[1usize, 3, 4]);
            let m = t.pick(&[0xC1u8, 0xC2]);
            let cs: Vec<_> = (0..n).map(|i| (i as u8 + 1, 1, 1, 0)).collect();
            s = frame(m, w, h, &cs);
            let i = sof_at(&s);
            s.segs[i].1[4] = 12;
            (name, want, info_fails) = (format!("12 bits SOF {:02x}", m), Some("SamplePrecision(12)".into()), true);
        }
        6 => {
            // component counts
            let (w, h) = sizes(&mut t);
            let m = t.pick(&[0xC0u8, 0xC1, 0xC2, 0xC3]);
            let n = match t.below(3) {
                _ if m == 0xC2 => 2,
                0 => 2,
                1 => 5 + t.below(6),
                _ => t.u(5, 255),
            };
            if m == 0xC3 {
                let mut p = sof_payload(t.u(2, 16) as u8, w, h, &(0..n).map(|i| (i as u8, 1, 1, 0)).collect::<Vec<_>>());
                let mut b = t.bulk();
                p.rotate_left(0);
                s = Stream { segs: vec![(Tag::Soi, vec![0xFF, 0xD8]), (Tag::Sof, seg(m, &p)), (Tag::Other, b.bytes(30))] };
            } else if n <= 20 {
                s = frame(m, w, h, &(0..n).map(|i| (i as u8, 1, 1, 0)).collect::<Vec<_>>());
            } else {
                let p = sof_payload(8, w, h, &(0..n).map(|i| (i as u8, 1, 1, 0)).collect::<Vec<_>>());
                s = Stream { segs: vec![(Tag::Soi, vec![0xFF, 0xD8]), (Tag::Sof, seg(m, &p)), (Tag::Eoi, vec![0xFF, 0xD9])] };
            }
            (name, want, info_fails) = (format!("{} components SOF {:02x}", n, m), Some(format!("ComponentCount({})", n)), true);
        }
        7 => {
            // height left to a DNL segment
            s.segs[sof].1[5..7].copy_from_slice(&[0, 0]);
            if t.chance(1, 2) {
                if let Some(e) = s.find(Tag::Ecs) {
                    s.segs.insert(e + 1, (Tag::Other, seg(0xDC, &(a.h as u16).to_be_bytes())));
                }
            }
            (name, want, info_fails) = ("height 0".into(), Some("DNL".into()), true);
        }
        8 => {
            // DNL after the first scan
            let e = s.find(Tag::Ecs).unwrap();
            s.segs.insert(e + 1, (Tag::Other, seg(0xDC, &(t.u(1, 65535) as u16).to_be_bytes())));
            (name, want, info_fails) = ("DNL after the first scan".into(), Some("DNL".into()), false);
        }
        9 | 10 => {
            // sampling ratios: supported iff every component's factors divide the largest
            let (w, h) = sizes(&mut t);
            let n = t.pick(&[3usize, 4]);
            let sofm = t.pick(&[0xC0u8, 0xC1, 0xC2]);
            let cs: Vec<_> = (0..n).map(|i| (i as u8, t.u(1, 4) as u8, t.u(1, 4) as u8, 0)).collect();
            let (hm, vm) = (cs.iter().map(|c| c.1).max().unwrap(), cs.iter().map(|c| c.2).max().unwrap());
            let ok = cs.iter().all(|c| hm % c.1 == 0 && vm % c.2 == 0);
            s = frame(sofm, w, h, &cs);
            name = format!("sampling {:?}", cs.iter().map(|c| (c.1, c.2)).collect::<Vec<_>>());
            (want, info_fails) = if ok { (None, false) } else { (Some("NonIntegerSubsamplingRatio".into()), true) };
        }
        11 => {
            // colour spaces
            let (w, h) = sizes(&mut t);
            let bg = t.chance(1, 2);
            let id = if bg { [1u8, 34, 35] } else { [b'r', b'g', b'b'] };
            let m = t.pick(&[0xC0u8, 0xC1, 0xC2]);
            let sf = gen::sampling(&mut t, 3, 1, true);
            s = frame(m, w, h, &(0..3).map(|i| (id[i], sf[i].0, sf[i].1, 0)).collect::<Vec<_>>());
            if t.chance(1, 2) {
                s.insert_app(1, 0, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0");
            }
            let x = if bg { "JcsBgYcc" } else { "JcsBgRgb" };
            (name, want, info_fails) = (format!("ids {:?}", id), Some(format!("ColorTransform({})", x)), false);
        }
        12 => {
            // lossless frames with subsampling
            let c = gen::lossless(&mut t, &[3, 4], 2, 8, false);
            s = c.stream();
            let i = sof_at(&s);
            let n = c.img.planes.len();
            let f = t.below(n);
            let at = 4 + 6 + 3 * f + 1;
            s.segs[i].1[at] = t.pick(&[0x21u8, 0x12, 0x22, 0x41, 0x14, 0x44, 0x24]);
            if c.img.w < 2 || c.img.h < 2 {
                return Ok(());
            }
            (name, want, info_fails) = ("subsampled lossless".into(), Some("SubsamplingRatio".into()), true);
        }
        _ => {
            (name, want, info_fails) = (format!("supported {}", a.kind), None, false);
        }
    }
    let data = s.bytes();
    r.input(&data);
    let c = if name.contains(" components") { "components" } else { name.split(' ').next().unwrap() };
    r.class(c.to_string() + if want.is_some() { "" } else { " supported" });
    r.nontrivial = want.is_some();
    r.desc = format!("{:?} {} {}", v, a.kind, name);
    let want = want.map(Fail::Unsupported);
    match (run(v, &data, &Set::default()).px, &want) {
        (Ok(_), None) => {}
        (Err(e), Some(x)) if e == *x => {}
        (x, y) => return Err(format!("{:?}: {}: decode {:?}, expected {:?}", v, name, x.map(|p| p.len()).map_err(|e| describe(&e)), y)),
    }
    match (open(v, &data).read_info(), info_fails) {
        (Ok(()), false) => Ok(()),
        (Err(e), true) if Some(&e) == want.as_ref() => Ok(()),
        (x, _) => Err(format!("{:?}: {}: read_info {:?}, decode {:?}", v, name, x, want)),
    }
}

// ---------------------------------------------------------------- C24

struct Base {
    s: Stream,
    kind: &'static str,
    n: usize,
    prec: u8,
    img: Option<Image>,
    plan: Option<Plan>,
}

/// A valid stream whose tables hold exactly the symbols used and are redefined for every scan.
fn tight(t: &mut Tape) -> Base {
    match t.weighted(&[5, 4, 2]) {
        k @ (0 | 1) => {
            let (img, _) = gen::image(t, &ImgOpts { max10: true, ..gen::DEF });
            let mut plan = if k == 0 { gen::seq_plan(t, &img) } else { gen::prog_plan(t, &img) };
            for s in &mut plan.scans {
                s.style = Style::Optimal;
                s.reuse = false;
            }
            let s = encode(&img, &plan);
            Base { s, kind: if k == 0 { "sequential" } else { "progressive" }, n: img.comps.len(), prec: 8, img: Some(img), plan: Some(plan) }
        }
        _ => {
            let mut c = gen::lossless(t, &[1, 3, 4], 2, 12, false);
            for s in &mut c.scans {
                s.style = Style::Optimal;
            }
            Base { s: c.stream(), kind: "lossless", n: c.img.planes.len(), prec: c.img.prec, img: None, plan: None }
        }
    }
}

/// Offsets of the tables in a DHT segment: (start of the table, class, slot, length of its value list)
fn dht_tables(s: &[u8]) -> Vec<(usize, u8, u8, usize)> {
    let (mut i, mut v) = (4, vec![]);
    while i + 17 <= s.len() {
        let n: usize = s[i + 1..i + 17].iter().map(|&x| x as usize).sum();
        v.push((i, s[i] >> 4, s[i] & 15, n));
        i += 17 + n;
    }
    v
}
/// Offsets of the tables in a DQT segment: (start, two bytes per element, slot)
fn dqt_tables(s: &[u8]) -> Vec<(usize, bool, u8)> {
    let (mut i, mut v) = (4, vec![]);
    while i < s.len() {
        let w = s[i] >> 4 == 1;
        v.push((i, w, s[i] & 15));
        i += 65 + if w { 64 } else { 0 };
    }
    v
}
fn relen(s: &mut Vec<u8>) {
    let l = (s.len() - 2) as u16;
    s[2..4].copy_from_slice(&l.to_be_bytes());
}
/// The scan header: (component entries, offset of Ss)
fn sos_comps(s: &[u8]) -> (usize, usize) {
    let n = s[4] as usize;
    (n, 5 + 2 * n)
}
/// Remove every definition of one table.
fn drop_table(s: &mut Stream, dqt: bool, class: u8, slot: u8) {
    for x in &mut s.segs {
        if dqt && x.0 == Tag::Dqt {
            let ts = dqt_tables(&x.1);
            for &(i, w, sl) in ts.iter().rev() {
                if sl == slot {
                    x.1.drain(i..i + 65 + if w { 64 } else { 0 });
                }
            }
            relen(&mut x.1);
        }
        if !dqt && x.0 == Tag::Dht {
            let ts = dht_tables(&x.1);
            for &(i, c, sl, n) in ts.iter().rev() {
                if (c, sl) == (class, slot) {
                    x.1.drain(i..i + 17 + n);
                }
            }
            relen(&mut x.1);
        }
    }
}

const RULES: usize = 63;

/// Break one rule. None: the rule does not apply to this stream.
fn violate(t: &mut Tape, b: &mut Base, rule: usize) -> Option<String> {
    let s = &mut b.s;
    let sof = sof_at(s);
    let code = sof_code(s);
    let (lossless, prog, dct) = (code == 0xC3, code == 0xC2, code != 0xC3);
    let soss = all(s, Tag::Sos);
    let si = t.pick(&soss);
    let (sn, ss) = sos_comps(&s.segs[si].1);
    let dqts = all(s, Tag::Dqt);
    let dhts = all(s, Tag::Dht);
    let any = {
        let p = places(s, 1);
        t.pick(&p)
    };
    let comp = t.below(b.n);
    let centry = 4 + 6 + 3 * comp;
    let sentry = 5 + 2 * t.below(sn);
    let other = |t: &mut Tape, lo: usize, hi: usize| t.u(lo, hi) as u8;
    Some(match rule {
        0 => {
            let x = t.pick(&[[0xFFu8, 0xD9], [0xFF, 0xE0], [0x00, 0xD8], [0xFE, 0xD8], [0xFF, 0x00], [0xD8, 0xFF], [0x89, 0x50], [0xFF, 0xFF]]);
            s.segs[0].1 = x.to_vec();
            format!("starts with {:02x?}", x)
        }
        1 => {
            s.segs.remove(sof);
            "no frame header before the first scan".into()
        }
        2 => {
            // frame header after the first scan
            let x = s.segs.remove(sof);
            let e = s.find(Tag::Ecs).unwrap();
            s.segs.insert(e + 1, x);
            "frame header after the first scan".into()
        }
        3 => {
            let at = t.u(1, sof);
            s.segs.insert(at, (Tag::Eoi, vec![0xFF, 0xD9]));
            "EOI before the frame header".into()
        }
        4 if dct => {
            let slot = s.segs[sof].1[centry + 2];
            drop_table(s, true, 0, slot);
            format!("quantisation table {} never defined", slot)
        }
        5 | 6 => {
            // a Huffman table that the scan needs
            let p = &s.segs[si].1;
            let (lo, ah) = (p[ss], p[ss + 2] >> 4);
            let (dc, ac) = (p[sentry + 1] >> 4, p[sentry + 1] & 15);
            let class = if lossless || (!prog && rule == 5) { 0 } else if !prog { 1 } else if lo > 0 { 1 } else if ah == 0 { 0 } else { return None };
            let slot = if class == 0 { dc } else { ac };
            drop_table(s, false, class, slot);
            format!("Huffman table {}/{} never defined", class, slot)
        }
        7 if !dqts.is_empty() => {
            let p = &mut s.segs[t.pick(&dqts)].1;
            let ts = dqt_tables(p);
            let (i, w, _) = t.pick(&ts);
            let k = t.below(64);
            if w {
                p[i + 1 + 2 * k] = 0;
                p[i + 2 + 2 * k] = 0;
            } else {
                p[i + 1 + k] = 0;
            }
            format!("quantiser {} is zero", k)
        }
        8 if !dqts.is_empty() => {
            let p = &mut s.segs[t.pick(&dqts)].1;
            let ts = dqt_tables(p);
            let (i, w, sl) = t.pick(&ts);
            let q = other(t, 2, 15);
            p[i] = (q << 4) | sl;
            if t.chance(1, 2) {
                // with as many bytes as such a precision would have
                let have = if w { 128 } else { 64 };
                p.splice(i + 1..i + 1, vec![1; 64 * (q as usize + 1) - have]);
                relen(p);
            }
            format!("DQT precision {}", q)
        }
        9 if !dqts.is_empty() => {
            let p = &mut s.segs[t.pick(&dqts)].1;
            let ts = dqt_tables(p);
            let (i, _, _) = t.pick(&ts);
            p[i] = (p[i] & 0xF0) | other(t, 4, 15);
            format!("DQT slot {}", p[i] & 15)
        }
        10 if !dqts.is_empty() => {
            let p = &mut s.segs[t.pick(&dqts)].1;
            let ts = dqt_tables(p);
            let last = ts.last().unwrap().0;
            let l = t.u(last + 1, p.len() - 1);
            p.truncate(l);
            relen(p);
            "DQT segment cut short".into()
        }
        11 if !dqts.is_empty() => {
            let p = &mut s.segs[t.pick(&dqts)].1;
            let n = t.u(1, 64);
            let mut x = t.bulk();
            p.extend(x.bytes(n));
            relen(p);
            format!("{} bytes too many in DQT", n)
        }
        12 => {
            let p = &mut s.segs[t.pick(&dhts)].1;
            let ts = dht_tables(p);
            let (i, _, sl, _) = t.pick(&ts);
            p[i] = (other(t, 2, 15) << 4) | sl;
            format!("DHT class {}", p[i] >> 4)
        }
        13 => {
            let p = &mut s.segs[t.pick(&dhts)].1;
            let ts = dht_tables(p);
            let (i, _, _, _) = t.pick(&ts);
            p[i] = (p[i] & 0xF0) | other(t, 4, 15);
            format!("DHT slot {}", p[i] & 15)
        }
        14 if code == 0xC0 => {
            // a third table in a baseline frame
            let at = places(s, sof + 1);
            let at = t.pick(&at);
            let tb = std_table(t.below(2) as u8, false);
            let p = dht_payload(t.below(2) as u8, t.u(2, 3) as u8, &tb);
            s.segs.insert(at, (Tag::Dht, seg(0xC4, &p)));
            "more than two Huffman tables of a class in baseline".into()
        }
        15 => {
            // redefined right afterwards by the table that stood there
            let p = &mut s.segs[t.pick(&dhts)].1;
            let mut x = vec![p[4]];
            x.extend([0; 16]);
            p.splice(4..4, x);
            relen(p);
            "empty Huffman table".into()
        }
        16 => {
            // more than 256 codes, no over-subscription
            let mut c = [0u8; 16];
            let mut x = t.bulk();
            let extra = 1 + x.below(200);
            c[15] = 255;
            c[14] = (extra + 1).min(255) as u8;
            if extra > 254 {
                c[13] = (extra - 254) as u8;
            }
            let n: usize = c.iter().map(|&x| x as usize).sum();
            let d = &mut s.segs[t.pick(&dhts)].1;
            let mut p = vec![d[4]];
            p.extend(c);
            p.extend((0..n).map(|i| i as u8));
            // redefined right afterwards by the table that stood there
            d.splice(4..4, p);
            relen(d);
            format!("{} codes in a Huffman table", n)
        }
        17 | 18 => {
            // over-subscribed: Kraft sum above 1
            let mut x = t.bulk();
            let mut c = [0u8; 16];
            let mut space = 1i64 << 16;
            let mut n = 0;
            // fill up at increasing lengths, then one code too many
            let first = x.below(7);
            for i in first..16 {
                let unit = 1i64 << (15 - i);
                let fit = space / unit;
                if i == 15 || x.chance(1, 4) || fit > 100 {
                    let k = (fit + 1).min(255);
                    if fit + 1 > 255 || n + k > 256 {
                        return None;
                    }
                    c[i] = k as u8;
                    n += k;
                    break;
                }
                let k = x.below((fit as usize).min(60) + 1) as i64;
                c[i] = k as u8;
                n += k;
                space -= k * unit;
            }
            // and some longer ones, or none
            if n == 0 {
                return None;
            }
            let d = &mut s.segs[t.pick(&dhts)].1;
            let mut p = vec![d[4]];
            p.extend(c);
            p.extend((0..n).map(|i| i as u8));
            // redefined right afterwards by the table that stood there
            d.splice(4..4, p);
            relen(d);
            format!("over-subscribed Huffman table {:?}", c)
        }
        19 => {
            let p = &mut s.segs[t.pick(&dhts)].1;
            let ts = dht_tables(p);
            let (last, _, _, _) = *ts.last().unwrap();
            let l = t.u(last + 1, p.len() - 1);
            p.truncate(l);
            relen(p);
            "DHT segment cut short".into()
        }
        20 => {
            let p = &mut s.segs[t.pick(&dhts)].1;
            let n = t.u(1, 17);
            let mut x = t.bulk();
            p.extend(x.bytes(n));
            relen(p);
            format!("{} bytes too many in DHT", n)
        }
        // frame header
        21 => {
            let p = &mut s.segs[sof].1;
            if t.chance(1, 2) {
                let n = t.u(1, 7);
                p.extend(vec![0; n]);
            } else {
                let l = t.u(4, p.len() - 1);
                p.truncate(l);
            }
            relen(p);
            "frame header of the wrong length".into()
        }
        22 => {
            s.segs[sof].1[7..9].copy_from_slice(&[0, 0]);
            "width 0".into()
        }
        23 => {
            let p = &mut s.segs[sof].1;
            p[9] = 0;
            if t.chance(1, 2) {
                p.truncate(10);
                relen(p);
            }
            "no components".into()
        }
        24 if b.n > 1 => {
            let c2 = (comp + 1 + t.below(b.n - 1)) % b.n;
            let id = s.segs[sof].1[4 + 6 + 3 * c2];
            s.segs[sof].1[centry] = id;
            "duplicate component id in the frame".into()
        }
        25 => {
            let p = &mut s.segs[sof].1;
            let bad = t.pick(&[0u8, 5, 6, 8, 15]);
            p[centry + 1] = (bad << 4) | (p[centry + 1] & 15);
            format!("horizontal sampling factor {}", bad)
        }
        26 => {
            let p = &mut s.segs[sof].1;
            let bad = t.pick(&[0u8, 5, 6, 8, 15]);
            p[centry + 1] = (p[centry + 1] & 0xF0) | bad;
            format!("vertical sampling factor {}", bad)
        }
        27 if dct => {
            let bad = t.pick(&[4u8, 5, 15, 16, 255]);
            s.segs[sof].1[centry + 2] = bad;
            format!("quantisation table selector {}", bad)
        }
        28 => {
            let bad = if lossless { t.pick(&[17u8, 18, 24, 32, 255]) } else if code == 0xC0 { t.pick(&[0u8, 1, 7, 9, 12, 16, 255]) } else { t.pick(&[0u8, 1, 2, 7, 9, 10, 11, 13, 16, 255]) };
            s.segs[sof].1[4] = bad;
            format!("precision {}", bad)
        }
        29 if prog => {
            let n = t.pick(&[5usize, 6, 10, 255]);
            s.segs[sof].1 = reseg(0xC2, &sof_payload(8, 8, 8, &(0..n).map(|i| (i as u8, 1, 1, 0)).collect::<Vec<_>>()));
            format!("{} components in a progressive frame", n)
        }
        30 if lossless => {
            s.segs[sof].1[centry + 2] = t.u(1, 3) as u8;
            "quantisation table selector in a lossless frame".into()
        }
        // scan header
        31 => {
            let p = &mut s.segs[si].1;
            if t.chance(1, 2) {
                let n = t.u(1, 5);
                p.extend(vec![0; n]);
            } else {
                let l = t.u(4, p.len() - 1);
                p.truncate(l);
            }
            relen(p);
            "scan header of the wrong length".into()
        }
        32 => {
            let p = &mut s.segs[si].1;
            p[4] = t.pick(&[0u8, 5, 6, 255]);
            if p[4] == 0 {
                p.drain(5..5 + 2 * sn);
                relen(p);
            }
            format!("{} components in a scan", p[4])
        }
        33 => {
            let ids: Vec<u8> = (0..b.n).map(|i| s.segs[sof].1[4 + 6 + 3 * i]).collect();
            let mut x = t.bulk();
            let mut id = x.byte();
            while ids.contains(&id) {
                id = id.wrapping_add(1);
            }
            s.segs[si].1[sentry] = id;
            "unknown component in a scan".into()
        }
        34 if sn > 1 => {
            let k = t.below(sn - 1);
            let id = s.segs[si].1[5 + 2 * k];
            let j = t.u(k + 1, sn - 1);
            s.segs[si].1[5 + 2 * j] = id;
            "component twice in a scan".into()
        }
        35 if sn > 1 => {
            let k = t.below(sn - 1);
            let j = t.u(k + 1, sn - 1);
            s.segs[si].1.swap(5 + 2 * k, 5 + 2 * j);
            "scan components out of order".into()
        }
        36 | 37 => {
            let dc = rule == 36;
            let bad = if code == 0xC0 && t.chance(2, 3) { t.u(2, 3) as u8 } else if code == 0xC0 { other(t, 2, 15) } else { other(t, 4, 15) };
            let old = s.segs[si].1[sentry + 1];
            let used = if dc { old >> 4 } else { old & 15 };
            s.segs[si].1[sentry + 1] = if dc { (bad << 4) | (old & 15) } else { (old & 0xF0) | bad };
            if bad < 4 {
                // the table itself is there, from before the frame header
                let mut tb = None;
                for x in &s.segs[..si] {
                    if x.0 == Tag::Dht {
                        for (i, c, sl, n) in dht_tables(&x.1) {
                            if (c, sl) == (!dc as u8, used) {
                                tb = Some(x.1[i + 1..i + 17 + n].to_vec());
                            }
                        }
                    }
                }
                if let Some(tb) = tb {
                    let mut p = vec![((!dc as u8) << 4) | bad];
                    p.extend(tb);
                    s.segs.insert(1, (Tag::Dht, seg(0xC4, &p)));
                }
            }
            format!("{} table selector {}", if dc { "DC" } else { "AC" }, bad)
        }
        38 if !prog && !lossless => {
            let p = &mut s.segs[si].1;
            if t.chance(1, 2) {
                p[ss] = other(t, 1, 255);
            } else {
                p[ss + 1] = if t.chance(1, 2) { other(t, 1, 62) } else { other(t, 64, 255) };
            }
            format!("sequential scan Ss {} Se {}", p[ss], p[ss + 1])
        }
        39 if !prog && !lossless => {
            let p = &mut s.segs[si].1;
            p[ss + 2] = other(t, 1, 255);
            format!("sequential scan Ah/Al {:02x}", p[ss + 2])
        }
        40 if prog => {
            let p = &mut s.segs[si].1;
            (p[ss], p[ss + 1]) = match t.below(4) {
                0 => (if sn > 1 { 0 } else { other(t, 1, 63) }, other(t, 64, 255)),
                1 => {
                    let x = other(t, 2, 255);
                    (x, other(t, 1, x as usize - 1))
                }
                2 => (0, other(t, 1, 63)),
                _ => (other(t, 64, 255), other(t, 64, 255)),
            };
            format!("progressive scan Ss {} Se {}", p[ss], p[ss + 1])
        }
        41 if prog && sn > 1 => {
            let p = &mut s.segs[si].1;
            let x = other(t, 1, 63);
            (p[ss], p[ss + 1]) = (x, other(t, x as usize, 63));
            "AC scan of several components".into()
        }
        42 if prog => {
            let p = &mut s.segs[si].1;
            let (ah, al) = match t.below(3) {
                0 => (0, other(t, 14, 15)),
                1 => (15, 14),
                _ => (14, 13),
            };
            p[ss + 2] = (ah << 4) | al;
            format!("approximation bit positions {}/{}", ah, al)
        }
        43 if prog => {
            let p = &mut s.segs[si].1;
            let ah = other(t, 1, 13);
            let mut al = other(t, 0, 13);
            if ah == al + 1 {
                al += 1;
            }
            p[ss + 2] = (ah << 4) | al;
            format!("approximation bit positions {}/{}", ah, al)
        }
        44 if lossless => {
            let p = &mut s.segs[si].1;
            p[ss + 1] = other(t, 1, 255);
            "Se in a lossless scan".into()
        }
        45 if lossless => {
            let p = &mut s.segs[si].1;
            p[ss + 2] |= other(t, 1, 15) << 4;
            "Ah in a lossless scan".into()
        }
        46 if lossless => {
            s.segs[si].1[ss] = other(t, 8, 255);
            format!("predictor {}", s.segs[si].1[ss])
        }
        47 if lossless && b.prec < 16 => {
            let pt = other(t, b.prec as usize, 15);
            s.segs[si].1[ss + 2] = pt;
            format!("point transform {} for {} bits", pt, b.prec)
        }
        48 => {
            // interleaved scans of more than 10 blocks per MCU
            let (w, h) = sizes(t);
            let n = t.pick(&[3usize, 4]);
            let code = t.pick(&[0xC0u8, 0xC1, 0xC2]);
            let mut f: Vec<(u8, u8)> = (0..n).map(|_| (t.pick(&[1u8, 2, 4]), t.pick(&[1u8, 2, 4]))).collect();
            // the scan has all of them or only some (the first ones: ascending order)
            let k = if t.chance(1, 2) { n } else { 2 };
            let from = t.below(n - k + 1);
            if f[from..from + k].iter().map(|x| x.0 * x.1).sum::<u8>() <= 10 {
                f[from + t.below(k)] = (4, 4);
            }
            let img = Image::new(w, h, &(0..n).map(|i| (i as u8, f[i].0, f[i].1, 0)).collect::<Vec<_>>());
            let mut plan = plain_plan(&img);
            plan.sof = code;
            if code == 0xC2 {
                plan.scans.iter_mut().for_each(|s| s.se = 0);
            }
            let mut x = encode(&img, &plan);
            // one more scan of all of them in front, with data to spare
            let at = x.find(Tag::Sos).unwrap();
            let se = if code == 0xC2 { 0 } else { 63 };
            x.segs.insert(at, (Tag::Sos, seg(0xDA, &sos_payload(&(from..from + k).map(|i| (i as u8, 0, 0)).collect::<Vec<_>>(), 0, se, 0, 0))));
            let e = x.segs[at + 2].1.clone();
            x.segs.insert(at + 1, (Tag::Ecs, e.repeat(64)));
            *s = x;
            format!("blocks per MCU {:?}", &f[from..from + k])
        }
        // other segments
        49 => {
            let n = t.pick(&[0usize, 1, 3, 4, 10]);
            let mut x = t.bulk();
            s.segs.insert(any, (Tag::Dri, seg(0xDD, &x.bytes(n))));
            format!("DRI of {} bytes", n)
        }
        50 => {
            let m = t.pick(&[0xDBu8, 0xC4, 0xDD, 0xE0, 0xE1, 0xE2, 0xED, 0xEE, 0xE7, 0xFE]);
            let mut x = vec![0xFF, m, 0, t.below(2) as u8];
            x.extend([1; 8]);
            s.segs.insert(any, (Tag::Other, x));
            format!("length below 2 in segment {:02x}", m)
        }
        51 => {
            let i = if t.chance(1, 2) { sof } else { si };
            s.segs[i].1[2] = 0;
            s.segs[i].1[3] = t.below(2) as u8;
            "length below 2 in a frame or scan header".into()
        }
        52 | 53 => {
            // restart markers
            let mut at = vec![];
            for (i, x) in s.segs.iter().enumerate() {
                if x.0 == Tag::Ecs {
                    at.extend((0..x.1.len().saturating_sub(1)).filter(|&j| x.1[j] == 0xFF && (0xD0..=0xD7).contains(&x.1[j + 1])).map(|j| (i, j)));
                }
            }
            if at.is_empty() {
                return None;
            }
            let (i, j) = t.pick(&at);
            let p = &mut s.segs[i].1;
            match t.below(3) {
                0 => {
                    p.drain(j..j + 2);
                    "restart marker missing".into()
                }
                1 => {
                    p[j + 1] = 0xD0 + (p[j + 1] - 0xD0 + t.u(1, 7) as u8) % 8;
                    "restart marker misnumbered".into()
                }
                _ => {
                    p[j + 1] = t.pick(&[0xD9u8, 0xDA, 0xD8, 0xC4, 0xE0, 0xFE, 0x01, 0xDC, 0xDB, 0xDD, 0xC0]);
                    format!("marker {:02x} in place of a restart marker", p[j + 1])
                }
            }
        }
        54 if !prog && b.n > 1 => {
            // a component without data
            s.segs.drain(si..si + 2);
            "a component has no scan".into()
        }
        55 => {
            let at: Vec<usize> = places(s, 1).into_iter().filter(|&i| s.segs[i - 1].0 != Tag::Ecs).collect();
            let at = t.pick(&at);
            let m = 0xD0 + t.below(8) as u8;
            s.segs.insert(at, (Tag::Other, vec![0xFF, m]));
            "restart marker outside of scan data".into()
        }
        56 => {
            let e = s.find(Tag::Ecs).unwrap();
            let at: Vec<usize> = places(s, 1).into_iter().filter(|&i| i != e + 1).collect();
            let at = t.pick(&at);
            s.segs.insert(at, (Tag::Other, seg(0xDC, &[0, 9])));
            "DNL elsewhere than after the first scan".into()
        }
        57 => {
            let m = match t.below(4) {
                0 => 0xC8,
                1 => other(t, 0xF0, 0xFD),
                2 => other(t, 0x01, 0xBF),
                _ => 0xD8,
            };
            let mut x = vec![0xFF, m];
            if t.chance(1, 2) {
                x.extend([0, 4, 1, 2]);
            }
            s.segs.insert(any, (Tag::Other, x));
            format!("marker {:02x}", m)
        }
        58 => {
            let mut p = b"Adobe\0\x64\0\0\0\0".to_vec();
            p.push(other(t, 3, 255));
            s.insert_app(any, 14, &p);
            format!("Adobe transform {}", p[11])
        }
        59 => {
            // the last code of a table is used by its scan; without it that code means nothing
            let di = t.pick(&dhts);
            let p = &mut s.segs[di].1;
            let ts = dht_tables(p);
            let (i, _, _, n) = t.pick(&ts);
            let l = (0..16).rev().find(|&l| p[i + 1 + l] > 0).unwrap();
            p[i + 1 + l] -= 1;
            p.remove(i + 17 + n - 1);
            relen(p);
            "code that no table defines".into()
        }
        60 => {
            // symbols that cannot occur
            let p = &s.segs[si].1;
            let (lo, ah) = (p[ss], p[ss + 2] >> 4);
            let (dc, ac) = (p[sentry + 1] >> 4, p[sentry + 1] & 15);
            let (class, slot, vals): (u8, u8, Vec<u8>) = if lo == 0 && !prog || lossless || prog && lo == 0 && ah == 0 {
                (0, dc, (0..255u32).map(|i| if lossless { 17 + (i % 239) as u8 } else { 12 + (i % 244) as u8 }).collect())
            } else if prog && lo > 0 && ah > 0 {
                (1, ac, (0..255u32).map(|i| ((i % 16) << 4 | (2 + i % 14)) as u8).collect())
            } else {
                return None;
            };
            let mut c = [0u8; 16];
            c[7] = 255;
            let tb = Table::new(c, vals);
            s.segs.insert(si, (Tag::Dht, seg(0xC4, &dht_payload(class, slot, &tb))));
            format!("impossible symbols in table {}/{}", class, slot)
        }
        61 => {
            // image ends before a component has data: EOI right after the first scan
            if prog || soss.len() < 2 {
                return None;
            }
            s.segs.truncate(soss[soss.len() - 1]);
            s.segs.push((Tag::Eoi, vec![0xFF, 0xD9]));
            "EOI before the last scan".into()
        }
        62 => {
            // no Huffman code consists of ones only (C.2)
            let (lo, ah) = (s.segs[si].1[ss], s.segs[si].1[ss + 2] >> 4);
            if prog && lo == 0 && ah > 0 {
                return None;
            }
            let n = t.u(3, 40);
            s.segs[si + 1].1 = [0xFF, 0].repeat(n);
            format!("scan data of {} bits, all ones", 8 * n)
        }
        _ => return None,
    })
}

/// Rules that one segment breaks by itself.
const LOCAL: [usize; 31] = [
    0, 3, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 49, 50, 51, 55, 57, 58,
];

fn c24(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let rule = t.below(RULES);
    let mut b = tight(&mut t);
    gen::meta_some(&mut t, &mut b.s);
    let before = b.s.clone();
    let Some(what) = violate(&mut t, &mut b, rule) else {
        r.class(format!("rule {} not applicable to {}", rule, b.kind));
        return Ok(());
    };
    let _ = (&b.img, &b.plan);
    let data = b.s.bytes();
    r.input(&data);
    r.class(format!("rule {} {}", rule, b.kind));
    r.nontrivial = true;
    r.desc = format!("{:?} {} {} components: {}", v, b.kind, b.n, what);
    if LOCAL.contains(&rule) {
        let at = before.segs.iter().zip(&b.s.segs).position(|(x, y)| x.1 != y.1).ok_or("harness: nothing changed")?;
        let early = at <= sof_at(&before);
        match (open(v, &data).read_info(), early) {
            (Err(Fail::Format(_)), true) | (Ok(()), false) => {}
            (x, _) => return Err(format!("{:?} {}: {}: read_info {:?}, segment {} (frame header: {})", v, b.kind, what, x, at, sof_at(&before))),
        }
        r.class(if early { "rule broken up to the frame header" } else { "rule broken after the frame header" });
    }
    match run(v, &data, &Set::default()).px {
        Err(Fail::Format(_)) => Ok(()),
        Err(e) => Err(format!("{:?} {}: {}: {}", v, b.kind, what, describe(&e))),
        Ok(p) => Err(format!("{:?} {}: {}: decoded to {} bytes", v, b.kind, what, p.len())),
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C23",
            rule: "streams of every process turned into arithmetic, differential, hierarchical (DHP, EXP, second frame anywhere), 12-bit, 2 or 5..255 component, zero-height, DNL, arbitrary sampling, big-gamut or subsampled lossless ones, and supported ones; the exact feature in decode and read_info; non-trivial: unsupported stream",
            subs: vec![sub("main", c23, 800_000, 880)],
            after: None,
            known: none,
            assumptions: &["sampling ratios are judged for images larger than one pixel in both directions"],
        },
        Check {
            id: "C24",
            rule: "valid streams of every process (tables holding exactly the used symbols) with one of 60 rule violations; decode has to return a Format error; non-trivial: the rule applies to the stream",
            subs: vec![sub("main", c24, 1_200_000, 1120)],
            after: None,
            known: none,
            assumptions: &[],
        },
    ]
}
