//! C28: memory and threads. Runs on one thread: the allocator counts the whole process.
use super::sub;
use crate::alloc;
use crate::dec::*;
use crate::enc::*;
use crate::gen::{self, ImgOpts};
use crate::refs;
use crate::runner::{Check, Rec};
use crate::tape::*;
use std::sync::Arc;
use std::time::{Duration, Instant};

const O: ImgOpts = ImgOpts { big: true, ..gen::DEF };

/// Heap bytes a decode may need per sample of the padded frame, per byte of input, and in any case.
/// (Observed: up to 7 in DCT images, 10 in lossless ones; 80 000 in any case.)
const PER_SAMPLE: f64 = 16.0;
const PER_BYTE: f64 = 4.0;
const FIXED: f64 = 192.0 * 1024.0;

fn tasks() -> usize {
    // (listing /proc/self/task can miss entries while a thread ends)
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let Some(i) = s.rfind(')') else { return 0 };
    s[i + 2..].split(' ').nth(17).and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// Waits for the threads beyond `t0` to end; how many are left.
fn settle(t0: usize) -> usize {
    let w = Instant::now();
    loop {
        let left = tasks().saturating_sub(t0);
        if left == 0 || w.elapsed() > Duration::from_secs(20) {
            return left;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
}

/// Runs `f` with counting on: (peak, live afterwards, what `f` returned).
/// Worker threads may need a moment to end; waits for them.
fn measure<T: Copy>(slack: isize, f: &mut dyn FnMut() -> T) -> (isize, isize, T) {
    let t0 = tasks();
    alloc::start();
    let r = f();
    let peak = alloc::peak();
    let w = Instant::now();
    while (alloc::live() > slack || tasks() > t0) && w.elapsed() < Duration::from_secs(20) {
        std::thread::sleep(Duration::from_micros(200));
        if alloc::live() > slack && tasks() <= t0 && w.elapsed() > Duration::from_millis(200) {
            break;
        }
    }
    let live = alloc::live();
    alloc::stop();
    (peak, live, r)
}

/// What the thread pool may keep for its queues (16 bytes per task, a task per row of blocks at most).
const ONCE: isize = 24 << 10;
static LEFT: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);

/// Nothing may remain after the decoder and its results are gone: neither threads nor memory.
fn nothing_left(f: &mut dyn FnMut(), what: &str) -> Result<isize, String> {
    const SLACK: isize = 2048;
    let t0 = tasks();
    let (peak, live, _) = measure(SLACK, f);
    let left = settle(t0);
    if left > 0 {
        return Err(format!("{}: {} threads left 20 s after the decoder was dropped", what, left));
    }
    LEFT.store(live, std::sync::atomic::Ordering::Relaxed);
    if live > ONCE {
        return Err(format!("{}: {} bytes not released after the decoder was dropped", what, live));
    }
    if live > SLACK {
        // once: a pool growing a queue; every time: a leak
        const N: isize = 8;
        let (_, again, _) = measure(SLACK, &mut || (0..N).for_each(|_| f()));
        if again > SLACK.max(live / 2) * N / 2 {
            return Err(format!("{}: {} bytes not released after the decoder was dropped, {} after {} more decodes", what, live, again, N));
        }
    }
    Ok(peak)
}

fn session(v: Var, data: &Arc<Vec<u8>>, s: &Set) {
    let mut d = open_arc(v, data);
    let o = finish(d.as_mut(), s);
    std::hint::black_box(&o);
}

fn warm() {
    static W: std::sync::Once = std::sync::Once::new();
    W.call_once(|| {
        let mut t: Vec<u32> = vec![];
        let mut b = Bulk::make(1);
        for _ in 0..40 {
            t.clear();
            t.extend((0..300).map(|_| b.next() as u32));
            let mut t = Tape::new(&t);
            let a = gen::any_stream(&mut t, &O, true);
            let d = Arc::new(a.stream.bytes());
            for v in ALL {
                session(v, &d, &Set::default());
            }
        }
    });
}

fn samples(a: &gen::Any) -> usize {
    match &a.img {
        Some(i) => i.comps.iter().map(|c| c.bw * c.bh * 64).sum(),
        None => a.w * a.h * a.ncomp,
    }
}

fn settings(t: &mut Tape, a: &gen::Any) -> Set {
    let mut set = Set::default();
    if t.chance(1, 4) {
        let k = t.pick(&[8usize, 4, 2, 1]);
        set.scale = Some((refs::scaled(a.w, k) as u16, refs::scaled(a.h, k) as u16));
    }
    if t.chance(1, 6) {
        set.ct = Some(t.pick(&CTS));
    }
    if t.chance(1, 8) {
        set.limit = Some(t.below(a.w * a.h * 4 + 2));
    }
    set
}

fn main(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    warm();
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let a = gen::any_stream(&mut t, &O, true);
    let data = Arc::new(a.stream.bytes());
    r.input(&data);
    let set = settings(&mut t, &a);
    let s = samples(&a);
    r.desc = format!("{:?} {} {}x{} x{} {:?}, {} samples, {} bytes", v, a.kind, a.w, a.h, a.ncomp, set, s, data.len());
    r.class(format!("{} {:?} {}", a.kind, v, if s > 200_000 { "large" } else { "small" }));
    r.nontrivial = true;
    let peak = nothing_left(&mut || session(v, &data, &set), &r.desc)?;
    r.num("bytes kept once", LEFT.load(std::sync::atomic::Ordering::Relaxed) as f64);
    if s > 100_000 {
        r.num(if a.kind == "lossless" { "peak bytes per sample, lossless" } else { "peak bytes per sample, DCT" }, peak as f64 / s as f64);
    }
    r.num("peak beyond the frame", peak as f64 - PER_SAMPLE * s as f64);
    let bound = PER_SAMPLE * s as f64 + PER_BYTE * data.len() as f64 + FIXED;
    if peak as f64 > bound {
        return Err(format!("{}: peak heap {} bytes, more than {}", r.desc, peak, bound));
    }
    Ok(())
}

fn damaged(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    warm();
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let mut a = gen::any_stream(&mut t, &O, true);
    gen::meta_some(&mut t, &mut a.stream);
    let (data, what) = gen::corrupt(&mut t, &a.stream);
    let data = Arc::new(data);
    r.input(&data);
    let set = settings(&mut t, &a);
    r.desc = format!("{:?} {} {}x{} x{} {:?} damaged:{}", v, a.kind, a.w, a.h, a.ncomp, set, what);
    let mut size = None;
    let mut ok = false;
    let peak = nothing_left(
        &mut || {
            let mut d = open_arc(v, &data);
            let o = finish(d.as_mut(), &set);
            ok = o.px.is_ok();
            size = o.info.map(|i| (i.w as usize, i.h as usize));
        },
        &r.desc,
    )?;
    r.class(format!("{} {:?} {}", a.kind, v, if ok { "Ok" } else { "Err" }));
    r.nontrivial = true;
    // whatever the damage did to the sampling factors: at most four components padded to 4x4 blocks
    let up = |x: usize| cdiv(x * 8, 32) * 32;
    let k = if set.scale.is_some() { 8 } else { 1 };
    let s = match size {
        Some((w, h)) => 4 * up((w * k).min(65535)) * up((h * k).min(65535)) / 64,
        None => 0,
    };
    let s = s.max(size.map_or(0, |(w, h)| 4 * (w * k).div_ceil(32) * 32 * (h * k).div_ceil(32) * 32));
    let bound = PER_SAMPLE * s as f64 + PER_BYTE * data.len() as f64 + FIXED;
    if peak as f64 > bound {
        return Err(format!("{}: peak heap {} bytes, more than {} for {:?}", r.desc, peak, bound, size));
    }
    Ok(())
}

/// Frames of any size cost nothing before their first scan is decoded.
fn header(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    warm();
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let axis = |t: &mut Tape| match t.below(3) {
        0 => 65535 - t.below(16),
        1 => t.u(20_000, 65535),
        _ => t.u(5_000, 20_000),
    };
    let (w, h) = (axis(&mut t), axis(&mut t));
    let n = t.pick(&[1usize, 3, 4]);
    let kind = t.below(6);
    let sf = gen::sampling(&mut t, n, 1, true);
    let comps: Vec<_> = (0..n).map(|i| (i as u8 + 1, if kind == 2 { 1 } else { sf[i].0 }, if kind == 2 { 1 } else { sf[i].1 }, 0u8)).collect();
    let (m, prec, name) = match kind {
        0 => (0xC0, 8, "baseline"),
        1 => (0xC2, 8, "progressive"),
        2 => (0xC3, 8, "lossless"),
        3 => (0xC1, 12, "12-bit"),
        4 => (t.pick(&[0xC9u8, 0xCA, 0xCB, 0xC5, 0xC6, 0xC7, 0xCD, 0xCE, 0xCF]), 8, "arithmetic or hierarchical"),
        _ => (0xC0, 8, "no scan"),
    };
    let mut d = vec![0xFF, 0xD8];
    d.extend(seg(0xDB, &dqt_payload(0, &[1; 64], false)));
    d.extend(seg(m, &sof_payload(prec, w, h, &comps)));
    for class in 0..2 {
        d.extend(seg(0xC4, &dht_payload(class, 0, &std_table(class, false))));
    }
    let late = t.below(3);
    let se = if kind == 1 { 0 } else { 63 };
    let sc: Vec<_> = comps.iter().map(|c| (c.0, 0u8, 0u8)).collect();
    let sos = if kind == 2 { seg(0xDA, &sos_payload(&sc, 1, 0, 0, 0)) } else { seg(0xDA, &sos_payload(&sc, 0, se, 0, 0)) };
    if kind != 5 {
        d.extend(sos);
        let k = t.below(200);
        let mut b = t.bulk();
        d.extend(b.bytes(k));
    }
    d.extend([0xFF, 0xD9]);
    let data = Arc::new(d);
    r.input(&data);
    r.desc = format!("{:?} {} {}x{} x{} step {}", v, name, w, h, n, late);
    r.class(name);
    r.nontrivial = true;
    let mut ok = true;
    let peak = nothing_left(
        &mut || {
            let mut d = open_arc(v, &data);
            ok = d.read_info().is_ok();
            if late > 0 && ok {
                let _ = d.scale(w as u16 / 8, 1);
                let _ = d.info();
            }
            if late > 1 && ok {
                let _ = d.read_info();
                let _ = d.icc();
            }
            if !ok || kind >= 3 {
                // nothing in these frames can be decoded
                let _ = d.decode();
            }
        },
        &r.desc,
    )?;
    r.class(if ok { "header read" } else { "rejected" });
    r.num("peak for a header", peak as f64);
    let bound = FIXED + PER_BYTE * data.len() as f64;
    if peak as f64 > bound {
        return Err(format!("{}: peak heap {} bytes though no scan was decoded", r.desc, peak));
    }
    Ok(())
}

/// Segments of no interest are not kept.
fn segments(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    warm();
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let mut a = gen::any_stream(&mut t, &gen::DEF, true);
    let n = if t.chance(1, 8) { t.u(41, 250) } else { t.u(10, 40) };
    let mut b = t.bulk();
    let mut total = 0;
    let kind = t.below(6);
    for _ in 0..n {
        let l = b.below(65_000);
        let (k, mut p) = match kind {
            0 => (0xFE, vec![]),
            1 => (0xE3 + b.below(11) as u8, vec![]),
            2 => (0xE0 + b.below(16) as u8, b"Unknown\0".to_vec()),
            // the data nobody can ask for, or that a later segment replaces
            3 => (0xED, b"Photoshop 3.0\0".to_vec()),
            4 => (0xE1, b"Exif\0\0".to_vec()),
            _ => (0xE1, b"http://ns.adobe.com/xap/1.0/\0".to_vec()),
        };
        let l = if kind > 2 { l / 3 } else { l };
        p.resize(p.len() + l, b.byte());
        total += p.len();
        let s = seg(k, &p);
        a.stream.segs.insert(1, (Tag::Other, s));
    }
    let data = Arc::new(a.stream.bytes());
    r.input(&data);
    r.key = fnv(tape.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>().as_slice());
    r.stream.clear();
    let s = samples(&a);
    r.desc = format!("{:?} {} {}x{}, {} inert segments of {} bytes", v, a.kind, a.w, a.h, n, total);
    r.class(["comments", "application segments", "unknown identifiers", "Photoshop segments", "EXIF again and again", "XMP again and again"][kind]);
    r.nontrivial = total > 1 << 20;
    let peak = nothing_left(&mut || session(v, &data, &Set::default()), &r.desc)?;
    let bound = FIXED + PER_SAMPLE * s as f64 + PER_BYTE * (data.len() - total) as f64;
    r.num("peak with inert segments", peak as f64 - PER_SAMPLE * s as f64);
    if peak as f64 > bound {
        return Err(format!("{}: peak heap {} bytes, more than {}", r.desc, peak, bound));
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C28",
        rule: "valid and damaged streams of every process and size in four feature configurations, headers of up to 65535x65535 without decoded scans, and megabytes of inert segments, under an allocator that counts live and peak heap bytes: the peak stays within a constant per sample of the padded frame and per byte of input, and nothing (memory, threads) is left once the decoder is gone; every case non-trivial",
        subs: vec![
            sub("main", main, 24_000, 880),
            sub("damaged", damaged, 30_000, 960),
            sub("huge", |t, r| gen::huge(|| main(t, r)), 375, 880),
            sub("header", header, 30_000, 80),
            sub("segments", segments, 2_250, 800),
        ],
        after: None,
        known: super::none,
        assumptions: &["heap bytes requested from the global allocator are counted; stacks and the allocator's own overhead are not"],
    }]
}
