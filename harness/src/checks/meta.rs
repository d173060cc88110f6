//! Metadata: C17 ICC profile reassembly, C18 EXIF/XMP verbatim and inert segments.
use super::{none, sub};
use crate::dec::*;
use crate::enc::*;
use crate::gen;
use crate::runner::{Check, Rec};
use crate::tape::{Bulk, Tape};

const ICC: &[u8] = b"ICC_PROFILE\0";
const XMP: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";
const EXIF: &[u8] = b"Exif\0\0";

/// Places where a segment may stand: before any segment after SOI, but not between a scan header and its data.
fn places(s: &Stream) -> Vec<usize> {
    (1..s.segs.len()).filter(|&i| s.segs[i].0 != Tag::Ecs).collect()
}

/// Insert the segments, in this order, at random places.
fn weave(b: &mut Bulk, s: &Stream, segs: Vec<(u8, Vec<u8>)>, clump: bool) -> Vec<u8> {
    let pl = places(s);
    let mut at: Vec<usize> = if clump {
        let p = pl[b.below(pl.len())];
        vec![p; segs.len()]
    } else {
        segs.iter().map(|_| pl[b.below(pl.len())]).collect()
    };
    at.sort();
    let mut out = vec![];
    let mut it = at.into_iter().zip(segs).peekable();
    for (i, x) in s.segs.iter().enumerate() {
        while it.peek().map_or(false, |p| p.0 == i) {
            let (_, (m, p)) = it.next().unwrap();
            out.extend(seg(m, &p));
        }
        out.extend_from_slice(&x.1);
    }
    out
}

fn small(t: &mut Tape) -> gen::Any {
    let mut a = gen::any_stream(t, &gen::DEF, true);
    // colour decisions that an unwanted recognition of a segment would change
    let mut b = t.bulk();
    if b.chance(1, 3) {
        a.stream.insert_app(1, 0, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0");
    }
    if b.chance(1, 3) {
        let mut p = b"Adobe\0\x64\0\0\0\0".to_vec();
        p.push(if a.ncomp == 4 { [0, 2][b.below(2)] } else { b.below(2) as u8 });
        a.stream.insert_app(1, 14, &p);
    }
    a
}

fn data_len(b: &mut Bulk, max: usize) -> usize {
    match b.below(20) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - b.below(3),
        4 => b.below(max + 1),
        5 => [8191usize, 8192, 8193, 255, 256, 32767, 4096][b.below(7)].min(max),
        _ => b.below(60),
    }
}

fn payload(b: &mut Bulk, n: usize) -> Vec<u8> {
    match b.below(4) {
        0 => (0..n).map(|i| i as u8).collect(),
        1 => (0..n).map(|_| [0xFF, 0xD9, 0xDA, 0xC0, 0x00, 0xD8][b.below(6)]).collect(),
        _ => b.bytes(n),
    }
}

/// APPn / COM content that no reader should take for anything.
fn foreign(b: &mut Bulk) -> (u8, Vec<u8>) {
    let heads: [(&[u8], u8); 8] = [
        (EXIF, 1),
        (XMP, 1),
        (ICC, 2),
        (b"JFIF\0", 0),
        (b"AVI1\0", 0),
        (b"Adobe\0", 14),
        (b"Photoshop 3.0\0", 13),
        (b"MPF\0", 2),
    ];
    let (h, own) = heads[b.below(8)];
    let mut p = h.to_vec();
    let mut n;
    match b.below(4) {
        // the right header in the wrong segment
        0 => {
            n = b.below(16) as u8;
            if n == own {
                n = (n + 1) % 16;
            }
            if b.chance(1, 4) {
                n = 0x1E; // COM = 0xFE
            }
            let k = data_len(b, 65533 - p.len());
            let d = payload(b, k);
            p.extend(d);
        }
        // one byte of the header is different (never turning it into another known header)
        1 => {
            n = own;
            let i = b.below(p.len());
            p[i] ^= [1u8, 0x20, 0x80][b.below(3)];
            let k = data_len(b, 65533 - p.len());
            let d = payload(b, k);
            p.extend(d);
        }
        // header cut short, nothing after it
        2 => {
            n = own;
            let l = b.below(p.len());
            p.truncate(l);
            // (Exif needs 6 bytes, Adobe 12, ICC 14 in all)
        }
        // no known header at all
        _ => {
            n = if b.chance(1, 4) { 0x1E } else { b.below(16) as u8 };
            let k = data_len(b, 65533);
            p = payload(b, k);
            if let Some(x) = p.first_mut() {
                *x = [b'z', 0, 0xFF, b'h' + 1][b.below(4)];
            }
        }
    }
    (0xE0 + n, p)
}

fn same_pixels(v: Var, what: &str, got: &Out, base: &Out) -> Result<(), String> {
    if (&got.px, got.info) != (&base.px, base.info) {
        let b = Out { exif: None, xmp: None, icc: None, ..base.clone() };
        return Err(format!("{:?}: with / without the {} segments: {}", v, what, super::api::out_diff(got, &b)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

/// What the property says about a list of (sequence number, count, data).
fn icc_model(c: &[(u8, u8, Vec<u8>)]) -> Option<Vec<u8>> {
    if c.is_empty() || c.len() > 255 || c.iter().any(|x| x.1 as usize != c.len()) {
        return None;
    }
    let mut out = vec![];
    for k in 1..=c.len() {
        let mut with = c.iter().filter(|x| x.0 as usize == k);
        out.extend_from_slice(&with.next()?.2);
        if with.next().is_some() {
            return None;
        }
    }
    Some(out)
}

fn c17(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let a = small(&mut t);
    let n = match t.weighted(&[5, 3, 1]) {
        0 => t.u(1, 5),
        1 => t.u(1, 20),
        _ => t.pick(&[255usize, 254, 128, 100, 200]),
    };
    let kind = t.weighted(&[6, 1, 1, 1, 1, 1, 1, 1, 2, 1]);
    let clump = t.chance(1, 2);
    let order = t.below(3);
    let noise = t.chance(1, 2);
    let mut b = t.bulk();
    // now and then a profile of megabytes
    let full = n > 20 && b.chance(1, 25);
    let max = if full || n <= 20 { 65519 } else { 300 };
    let mut cs: Vec<(u8, u8, Vec<u8>)> = (1..=n)
        .map(|i| {
            if full {
                return (i as u8, n as u8, vec![b.byte(); max - b.below(3)]);
            }
            let k = data_len(&mut b, max);
            (i as u8, n as u8, payload(&mut b, k))
        })
        .collect();
    let i = b.below(n);
    let kind = match kind {
        1 => {
            // a sequence number twice, another missing
            cs[i].0 = 1 + b.below(n) as u8;
            "duplicate number"
        }
        2 => {
            cs.remove(i);
            "chunk missing"
        }
        3 => {
            cs[i].1 = [0, 1, (n as u8).wrapping_add(1), (n as u8).wrapping_sub(1), b.byte()][b.below(5)];
            "one count differs"
        }
        4 => {
            let k = [0, 1, (n as u8).wrapping_add(1), (n as u8).wrapping_sub(1), 255, b.byte()][b.below(6)];
            cs.iter_mut().for_each(|c| c.1 = k);
            "all counts wrong"
        }
        5 => {
            cs[i].0 = [0, (n as u8).wrapping_add(1), 255, b.byte()][b.below(4)];
            "number out of place"
        }
        6 => {
            let c = (b.below(n + 2) as u8, n as u8, b.bytes(5));
            cs.push(c);
            "one chunk more"
        }
        7 => {
            cs.iter_mut().for_each(|c| c.0 = c.0.wrapping_sub(1));
            "counted from 0"
        }
        8 => {
            let k = b.below(5);
            let m = 1 + b.below(4) as u8;
            cs = (0..k)
                .map(|_| {
                    let l = b.below(4);
                    (b.below(5) as u8, if b.chance(2, 3) { k as u8 } else { m }, b.bytes(l))
                })
                .collect();
            "random list"
        }
        9 => {
            // more chunks than numbers
            let l = 256 + b.below(300);
            cs = (0..l).map(|i| (i as u8, [l as u8, 255][b.below(2)], vec![i as u8])).collect();
            "too many chunks"
        }
        _ => "complete",
    };
    match order {
        0 => {}
        1 => cs.reverse(),
        _ => b.shuffle(&mut cs),
    }
    let want = icc_model(&cs);
    let mut segs: Vec<(u8, Vec<u8>)> = vec![];
    for c in &cs {
        if noise && b.chance(1, 4) {
            segs.push(foreign(&mut b));
        }
        let mut p = ICC.to_vec();
        p.extend([c.0, c.1]);
        p.extend_from_slice(&c.2);
        segs.push((0xE2, p));
        if noise && b.chance(1, 8) {
            // an ICC segment too short to hold a chunk, or in another APPn
            segs.push(if b.chance(1, 2) {
                (0xE2, [ICC, &[1u8][..b.below(2)]].concat())
            } else {
                (0xE0 + [1u8, 3, 13, 0][b.below(4)], [ICC, &[1, 1, 7][..]].concat())
            });
        }
    }
    let data = weave(&mut b, &a.stream, segs, clump);
    r.input(&data);
    r.class(format!("{} {}", kind, if want.is_some() { "Some" } else { "None" }));
    r.class(format!("{} chunks", match cs.len() { 0 => "0", 1 => "1", 2..=20 => "2-20", 21..=253 => "21-253", _ => "254 or more" }));
    r.nontrivial = cs.len() > 1;
    r.desc = format!("{:?} {} {}: {} chunks, order {}, profile {:?} bytes", v, a.kind, kind, cs.len(), order, want.as_ref().map(Vec::len));
    let base = run(v, &a.stream.bytes(), &Set::default());
    if let Err(e) = &base.px {
        return Err(format!("{:?}: base stream not decoded: {}", v, describe(e)));
    }
    let o = run(v, &data, &Set::default());
    same_pixels(v, "ICC", &o, &base)?;
    if o.icc != want {
        let show = |x: &Option<Vec<u8>>| x.as_ref().map(|p| (p.len(), p.iter().take(12).cloned().collect::<Vec<_>>()));
        return Err(format!(
            "{:?}: {} chunks {:?}: icc_profile() {:?} (length, start), expected {:?}",
            v, cs.len(), cs.iter().take(6).map(|c| (c.0, c.1, c.2.len())).collect::<Vec<_>>(), show(&o.icc), show(&want)
        ));
    }
    if o.exif.is_some() || o.xmp.is_some() {
        return Err("EXIF or XMP out of nothing".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

fn c18(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let a = small(&mut t);
    let n = t.weighted(&[1, 4, 4, 2, 2, 1]);
    let clump = t.chance(1, 3);
    let mut b = t.bulk();
    let n = if n > 3 && b.chance(1, 40) { 6 + b.below(500) } else { n };
    let (mut exif, mut xmp) = (None, None);
    let mut icc = false;
    let mut segs = vec![];
    let mut names = vec![];
    for _ in 0..n {
        let k = b.below(7);
        let (m, p) = match k {
            0 | 1 => {
                let l = data_len(&mut b, 65533 - EXIF.len());
                let d = payload(&mut b, l);
                exif = Some(d.clone());
                names.push(format!("exif {}", l));
                (0xE1, [EXIF, &d].concat())
            }
            2 | 3 => {
                let l = data_len(&mut b, 65533 - XMP.len());
                let d = payload(&mut b, l);
                xmp = Some(d.clone());
                names.push(format!("xmp {}", l));
                (0xE1, [XMP, &d].concat())
            }
            4 if !icc && b.chance(1, 2) => {
                icc = true;
                names.push("icc".into());
                (0xE2, [ICC, &[1, 1, 42]].concat())
            }
            _ => {
                let f = foreign(&mut b);
                names.push(format!("{:02x} {}", f.0, f.1.len()));
                f
            }
        };
        segs.push((m, p));
    }
    if n > 5 {
        names = vec![format!("{} segments", n)];
    }
    let data = weave(&mut b, &a.stream, segs, clump);
    r.input(&data);
    r.class(format!("exif={} xmp={}", exif.is_some(), xmp.is_some()));
    r.class(format!("{} segments {}", if n > 5 { "many".to_string() } else { n.to_string() }, a.kind));
    r.nontrivial = n > 0;
    r.desc = format!("{:?} {} {}x{} segments {:?}", v, a.kind, a.w, a.h, names);
    let base = run(v, &a.stream.bytes(), &Set::default());
    if let Err(e) = &base.px {
        return Err(format!("{:?}: base stream not decoded: {}", v, describe(e)));
    }
    if base.exif.is_some() || base.xmp.is_some() || base.icc.is_some() {
        return Err(format!("{:?}: metadata out of nothing", v));
    }
    let o = run(v, &data, &Set::default());
    same_pixels(v, "APPn/COM", &o, &base)?;
    for (name, got, want) in [("exif", &o.exif, &exif), ("xmp", &o.xmp, &xmp), ("icc", &o.icc, &icc.then(|| vec![42]))] {
        if got != want {
            return Err(format!(
                "{:?}: {} data {:?} bytes, expected {:?}; segments {:?}",
                v, name, got.as_ref().map(Vec::len), want.as_ref().map(Vec::len), names
            ));
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            rule: "chunk lists of 0..555 chunks (complete ones, duplicates, omissions, wrong counts and numbers, counted from 0, more than 255, random), payloads 0..65519 bytes, in order, reversed and shuffled, at random places between the segments of streams of all processes, between foreign APP2 segments; icc_profile() against the model, pixels against the stream without; non-trivial: at least two chunks",
            subs: vec![sub("main", c17, 75_000, 800)],
            after: None,
            known: none,
            assumptions: &["an APP2 segment holds an ICC chunk when it starts with ICC_PROFILE\\0 and has at least the two counter bytes"],
        },
        Check {
            id: "C18",
            rule: "0..5 EXIF, XMP, ICC and foreign segments (near-miss headers, right header in another APPn, cut headers, COM, arbitrary content with marker bytes; payloads 0..65533 bytes) at random places of streams of all processes; getters against the inserted payloads, pixels and info against the stream without them; non-trivial: at least one segment",
            subs: vec![sub("main", c18, 90_000, 800)],
            after: None,
            known: none,
            assumptions: &[],
        },
    ]
}
