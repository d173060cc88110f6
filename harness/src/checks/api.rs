//! The decoder object: C02 call histories, C03 buffer and info, C12 scale selection, C14 limit,
//! C15 reader schedules, C16 truncation and reader errors, C19 read_info first.
use super::{none, sub};
use crate::dec::*;
use crate::enc::*;
use crate::gen::{self, ImgOpts};
use crate::refs;
use crate::runner::{Check, Rec};
use crate::tape::{Bulk, Tape};
use std::io::{self, Read};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

const BIG: ImgOpts = ImgOpts { big: true, ..gen::DEF };
pub const WIDE: &str = "lossless-wide-multicomponent";

/// In-memory reader that publishes how far it was read.
struct Counting {
    d: Arc<Vec<u8>>,
    pos: Arc<AtomicUsize>,
}
impl Read for Counting {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = self.pos.load(SeqCst);
        let n = (self.d.len() - p).min(b.len());
        b[..n].copy_from_slice(&self.d[p..p + n]);
        self.pos.store(p + n, SeqCst);
        Ok(n)
    }
}

fn counting(v: Var, d: &[u8]) -> (Box<dyn Dec>, Arc<AtomicUsize>) {
    let pos = Arc::new(AtomicUsize::new(0));
    (with_reader(v, Box::new(Counting { d: Arc::new(d.to_vec()), pos: pos.clone() })), pos)
}

pub fn out_diff(a: &Out, b: &Out) -> String {
    match (&a.px, &b.px) {
        (Ok(p), Ok(q)) if p != q => {
            let i = b.info.or(a.info);
            let (w, pb) = i.map_or((1, 1), |i| (i.w as usize, i.pb));
            format!("pixels: {}", diff(p, q, w, pb))
        }
        (Err(x), Err(y)) if x != y => format!("{} / {}", describe(x), describe(y)),
        (Ok(_), Err(y)) => format!("Ok / {}", describe(y)),
        (Err(x), Ok(_)) => format!("{} / Ok", describe(x)),
        _ if a.info != b.info => format!("info {:?} / {:?}", a.info, b.info),
        _ => format!(
            "metadata: exif {:?}/{:?} xmp {:?}/{:?} icc {:?}/{:?} (lengths)",
            a.exif.as_ref().map(Vec::len), b.exif.as_ref().map(Vec::len), a.xmp.as_ref().map(Vec::len), b.xmp.as_ref().map(Vec::len),
            a.icc.as_ref().map(Vec::len), b.icc.as_ref().map(Vec::len)
        ),
    }
}

// ---------------------------------------------------------------- C02

#[derive(Debug, Clone, Copy)]
enum Op {
    ReadInfo,
    Scale(u16, u16),
    Ct(Ct),
    Limit(usize),
    Info,
    Meta,
}

fn op(t: &mut Tape, w: usize, h: usize, size: usize) -> Op {
    match t.weighted(&[3, 4, 3, 2, 2, 1]) {
        0 => Op::ReadInfo,
        1 => {
            let k = t.pick(&[1usize, 2, 4, 8]);
            if t.chance(1, 4) {
                Op::Scale(t.below(65536) as u16, t.below(65536) as u16)
            } else {
                let m = t.pick(&[0usize, 1, 0]);
                Op::Scale((refs::scaled(w, k) + m) as u16, (refs::scaled(h, k) + m) as u16)
            }
        }
        2 => Op::Ct(t.pick(&CTS)),
        3 => Op::Limit(t.pick(&[usize::MAX, size, size.saturating_sub(1), size / 4, 0, 1 << 30, size + 1])),
        4 => Op::Info,
        _ => Op::Meta,
    }
}

fn panicked<T>(r: &Res<T>) -> Result<(), String> {
    match r {
        Err(e) if e.is_panic() => Err(e.kind()),
        _ => Ok(()),
    }
}

fn c02(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let nops = if t.chance(1, 30) { t.u(9, 60) } else { t.below(9) };
    let (mut data, valid, a, w) = gen::stream_or_corrupt(&mut t, &BIG);
    // data after EOI, so that over-reading and second decodes have something to chew on
    if t.chance(1, 3) {
        let tail = t.below(4);
        let mut b = t.bulk();
        match tail {
            0 => data.extend_from_slice(&[0xFF, 0xD9]),
            1 => {
                let d = data.clone();
                data.extend(d)
            }
            2 => {
                // the scans again, without SOI and frame header
                for s in &a.stream.segs {
                    if !matches!(s.0, Tag::Soi | Tag::Sof) {
                        data.extend_from_slice(&s.1);
                    }
                }
            }
            _ => data.extend(b.bytes(50)),
        }
    }
    r.input(&data);
    let size = a.w * a.h * a.ncomp * if a.prec > 8 { 2 } else { 1 };
    let (mut d, pos) = counting(v, &data);
    let mut set = Set::default();
    let mut ops = vec![];
    let mut header = false;
    let at_fail = |o: &[Op]| format!("{:?} after {:?}", v, o);
    for _ in 0..nops {
        let o = op(&mut t, a.w, a.h, size);
        ops.push(o);
        let before = pos.load(SeqCst);
        match o {
            Op::ReadInfo | Op::Scale(..) => {
                let res = match o {
                    Op::Scale(w, h) => d.scale(w, h),
                    _ => d.read_info().map(|_| (0, 0)),
                };
                panicked(&res)?;
                match res {
                    Err(e) => {
                        if header {
                            return Err(format!("{}: fails although the header was read: {}", at_fail(&ops), describe(&e)));
                        }
                        // the same error a fresh decode gives
                        r.desc = format!("{:?} {} damaged:{} ops {:?}", v, a.kind, w, ops);
                        r.class("header error");
                        let o = run(v, &data, &Set::default());
                        return match o.px {
                            Err(e2) if e2 == e => Ok(()),
                            x => Err(format!("{}: {} but a fresh decode: {:?}", at_fail(&ops), describe(&e), x.map(|p| p.len()).map_err(|e| describe(&e)))),
                        };
                    }
                    Ok((ow, oh)) => {
                        if header && pos.load(SeqCst) != before {
                            return Err(format!("{}: consumed {} more bytes", at_fail(&ops), pos.load(SeqCst) - before));
                        }
                        header = true;
                        if let Op::Scale(w, h) = o {
                            set.scale = Some((w, h));
                            let i = d.info().map_err(|e| e.kind())?.ok_or("info() is None after scale")?;
                            if (i.w, i.h) != (ow, oh) {
                                return Err(format!("{}: scale returned {}x{}, info() {}x{}", at_fail(&ops), ow, oh, i.w, i.h));
                            }
                        }
                    }
                }
            }
            Op::Ct(c) => {
                set.ct = Some(c);
                d.set_ct(c);
            }
            Op::Limit(l) => {
                set.limit = Some(l);
                d.set_limit(l);
            }
            Op::Info => {
                let i = d.info().map_err(|e| e.kind())?;
                if i.is_some() != header {
                    return Err(format!("{}: info() is {:?}", at_fail(&ops), i));
                }
            }
            Op::Meta => {
                d.exif();
                d.xmp();
                d.icc().map_err(|e| e.kind())?;
            }
        }
        if !matches!(o, Op::ReadInfo | Op::Scale(..)) && pos.load(SeqCst) != before {
            return Err(format!("{}: reads from the reader", at_fail(&ops)));
        }
        if header {
            // always describes the current output
            let i = d.info().map_err(|e| e.kind())?.ok_or_else(|| format!("{}: info() is None", at_fail(&ops)))?;
            if valid {
                let n = match set.scale {
                    Some((w, h)) if a.kind != "lossless" => refs::choose_n(a.w, a.h, w as usize, h as usize),
                    _ => 8,
                };
                if (i.w as usize, i.h as usize) != (refs::scaled(a.w, n), refs::scaled(a.h, n)) {
                    return Err(format!("{}: info() says {}x{} for a {}x{} image at {}/8", at_fail(&ops), i.w, i.h, a.w, a.h, n));
                }
            }
        }
    }
    r.desc = format!("{:?} {} {}x{} damaged:{} ops {:?}", v, a.kind, a.w, a.h, w, ops);
    r.class(format!("{} valid={} ops={}", a.kind, valid, nops));
    r.nontrivial = nops >= 2;
    let px = d.decode();
    panicked(&px)?;
    let ok = px.is_ok();
    let got = Out { px, info: d.info().map_err(|e| e.kind())?, exif: d.exif(), xmp: d.xmp(), icc: d.icc().map_err(|e| e.kind())? };
    let want = run(v, &data, &set);
    if got != want {
        return Err(format!("{}: history / fresh decoder: {}", at_fail(&ops), out_diff(&got, &want)));
    }
    r.class(if ok { "decoded" } else { "decode error" });
    // afterwards
    if ok {
        for _ in 0..t.below(4) {
            let o = op(&mut t, a.w, a.h, size);
            match o {
                Op::ReadInfo => panicked(&d.read_info())?,
                Op::Scale(w, h) => panicked(&d.scale(w, h))?,
                Op::Ct(c) => d.set_ct(c),
                Op::Limit(l) => d.set_limit(l),
                _ => {
                    let p = d.decode();
                    panicked(&p)?;
                    let i = d.info().map_err(|e| e.kind())?;
                    if let (Ok(p), Some(i)) = (&p, i) {
                        r.class("second decode Ok");
                        // (C03's listed finding: 16-bit samples under an 8-bit format)
                        let wide = i.proc == Proc::Lossless && i.pb > 2 && p.len() == 2 * i.len();
                        if p.len() != i.len() && !wide {
                            return Err(format!("{:?}: second decode gives {} bytes, info() says {:?}", v, p.len(), i));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn fmt_of(n: usize, prec: u8) -> Fmt {
    match n {
        1 if prec > 8 => Fmt::L16,
        1 => Fmt::L8,
        3 => Fmt::Rgb24,
        _ => Fmt::Cmyk32,
    }
}

fn c03(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let which = t.weighted(&[5, 3, 2]);
    let (data, w, h, n, prec, proc);
    match which {
        0 => {
            let a = gen::any_stream(&mut t, &BIG, false);
            let sof = a.stream.segs.iter().find(|s| s.0 == Tag::Sof).unwrap().1[1];
            proc = if sof == 0xC2 { Proc::Prog } else { Proc::Seq };
            (data, w, h, n, prec) = (a.stream.bytes(), a.w, a.h, a.ncomp, 8);
        }
        1 => {
            let c = gen::lossless(&mut t, &[1, 3, 4], 2, 16, true);
            proc = Proc::Lossless;
            (data, w, h, n, prec) = (c.stream().bytes(), c.img.w, c.img.h, c.img.planes.len(), c.img.prec);
        }
        _ => {
            // extreme aspect ratios
            let long = t.u(2000, 65535);
            let k = t.u(1, 3);
            (w, h) = if t.chance(1, 2) { (long, k) } else { (k, long) };
            n = t.pick(&[1usize, 3]);
            let sf = gen::sampling(&mut t, n, 1, true);
            let img = Image::new(w, h, &(0..n).map(|i| (i as u8 + 1, sf[i].0, sf[i].1, 0)).collect::<Vec<_>>());
            let mut plan = if t.chance(1, 2) { gen::seq_plan(&mut t, &img) } else { gen::prog_plan(&mut t, &img) };
            if plan.scans.len() > 12 {
                plan = plain_plan(&img);
            }
            proc = if plan.sof == 0xC2 { Proc::Prog } else { Proc::Seq };
            data = encode(&img, &plan).bytes();
            prec = 8;
        }
    }
    r.input(&data);
    let mut set = Set::default();
    if t.chance(1, 2) {
        let k = t.pick(&[4usize, 2, 1, 8]);
        set.scale = Some((refs::scaled(w, k) as u16, refs::scaled(h, k) as u16));
    }
    if t.chance(1, 4) {
        set.ct = Some(t.pick(&CTS));
    }
    r.desc = format!("{:?} {:?} {}x{} comps={} precision={} scale={:?} override={:?}", v, proc, w, h, n, prec, set.scale, set.ct);
    r.class(format!("{:?} comps={} wide={} scaled={}", proc, n, prec > 8, set.scale.is_some()));
    r.nontrivial = w * h > 1;
    let o = run(v, &data, &set);
    let p = match o.px {
        Ok(p) => p,
        Err(e) if set.ct.is_some() && !e.is_panic() => {
            r.class("override refused");
            r.nontrivial = false;
            let _ = e;
            return Ok(());
        }
        Err(e) => return Err(format!("{:?}: valid stream not decoded: {}", v, describe(&e))),
    };
    let i = o.info.ok_or("info() is None after a successful decode")?;
    let f = match set.scale {
        Some((a, b)) if proc != Proc::Lossless => refs::choose_n(w, h, a as usize, b as usize),
        _ => 8,
    };
    let want = (refs::scaled(w, f), refs::scaled(h, f), fmt_of(n, prec), proc);
    if (i.w as usize, i.h as usize, i.fmt, i.proc) != want {
        return Err(format!("info() is {:?}, expected {:?}", i, want));
    }
    if i.pb != i.fmt.bytes() {
        return Err(format!("{:?} reports {} bytes per pixel", i.fmt, i.pb));
    }
    if p.len() != i.len() {
        if proc == Proc::Lossless && n > 1 && prec > 8 && p.len() == 2 * i.len() {
            r.known.push(WIDE.into());
            return Ok(());
        }
        return Err(format!("{:?}: {} bytes for {:?}", v, p.len(), i));
    }
    Ok(())
}

/// Damaged streams: whatever still decodes agrees with info().
fn c03_damaged(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let a = gen::any_stream(&mut t, &gen::DEF, true);
    let (d, what) = gen::corrupt(&mut t, &a.stream);
    r.input(&d);
    let mut set = Set::default();
    if t.chance(1, 3) {
        set.scale = Some((t.u(0, 40) as u16, t.u(0, 40) as u16));
    }
    r.desc = format!("{:?} {}:{}", v, a.kind, what);
    let o = run(v, &d, &set);
    if let Ok(p) = &o.px {
        r.nontrivial = true;
        r.class(format!("{} still decodes", a.kind));
        let i = o.info.ok_or("info() is None after a successful decode")?;
        if p.len() != i.len() {
            if i.proc == Proc::Lossless && matches!(i.fmt, Fmt::Rgb24 | Fmt::Cmyk32) && p.len() == 2 * i.len() {
                r.known.push(WIDE.into());
                return Ok(());
            }
            return Err(format!("{:?}: {} bytes for {:?} ({})", v, p.len(), i, what));
        }
    }
    Ok(())
}

fn wide_case() -> gen::LCase {
    gen::LCase {
        img: LImage { w: 2, h: 2, prec: 12, ids: vec![1, 2, 3], hv: (1, 1), planes: vec![vec![1000; 4]; 3] },
        scans: vec![LScan { comps: vec![0, 1, 2], pred: 1, pt: 0, ri_lines: 0, dc: vec![0; 3], style: Style::Optimal, seed: 0 }],
    }
}

fn c03_known() -> Vec<(&'static str, bool)> {
    let d = wide_case().stream().bytes();
    let o = run(Var::Def, &d, &Set::default());
    let bad = matches!((&o.px, o.info), (Ok(p), Some(i)) if p.len() == 2 * i.len());
    vec![(WIDE, bad)]
}

// ---------------------------------------------------------------- C12

fn c12(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let real = t.chance(1, 2);
    let one = |t: &mut Tape| match t.below(4) {
        0 => t.u(1, 20),
        1 => t.u(1, 300),
        2 => t.u(1, 65535),
        _ => t.pick(&[65535usize, 1, 8, 9, 7, 16, 65528, 65529, 32768]),
    };
    let (data, w, h, lossless);
    if real {
        let a = gen::any_stream(&mut t, &BIG, true);
        lossless = a.kind == "lossless";
        (data, w, h) = (a.stream.bytes(), a.w, a.h);
    } else {
        // header only
        (w, h) = (one(&mut t), one(&mut t));
        let n = t.pick(&[1usize, 3, 4]);
        let sf = gen::sampling(&mut t, n, 1, false);
        let sof = t.pick(&[0xC0u8, 0xC1, 0xC2]);
        let cs: Vec<_> = (0..n).map(|i| (i as u8, sf[i].0, sf[i].1, 0)).collect();
        let mut d = vec![0xFF, 0xD8];
        d.extend(seg(sof, &sof_payload(8, w, h, &cs)));
        data = d;
        lossless = false;
    }
    r.input(&data);
    let mut d = open(v, &data);
    let mut last = (w, h);
    let mut reqs = vec![];
    for _ in 0..1 + t.below(4) {
        let k = t.pick(&[1usize, 2, 4, 8]);
        let near = |t: &mut Tape, x: usize| (refs::scaled(x, k) as i64 + t.pick(&[0i64, 1, -1])).clamp(0, 65535) as usize;
        let (rw, rh) = match t.below(4) {
            0 => (near(&mut t, w), near(&mut t, h)),
            1 => (near(&mut t, w), t.below(65536)),
            2 => (t.below(65536), near(&mut t, h)),
            _ => (one(&mut t), one(&mut t)),
        };
        reqs.push((rw, rh));
        // smallest of 1/8, 1/4, 1/2 whose output reaches the request in one axis, else 1
        let n = if lossless { 8 } else { refs::choose_n(w, h, rw, rh) };
        last = (refs::scaled(w, n), refs::scaled(h, n));
        let got = d.scale(rw as u16, rh as u16).map_err(|e| format!("{:?}: scale: {}", v, describe(&e)))?;
        if (got.0 as usize, got.1 as usize) != last {
            return Err(format!("{:?}: {}x{} scaled to {}x{} gives {:?}, expected {:?} ({}/8)", v, w, h, rw, rh, got, last, n));
        }
        let i = d.info().map_err(|e| e.kind())?.ok_or("info() is None after scale")?;
        if (i.w as usize, i.h as usize) != last {
            return Err(format!("{:?}: info() says {}x{} after scale returned {:?}", v, i.w, i.h, got));
        }
        r.class(format!("{}/8 lossless={}", n, lossless));
    }
    r.desc = format!("{:?} {}x{} lossless={} requests {:?} -> {:?}", v, w, h, lossless, reqs, last);
    r.nontrivial = w * h > 1;
    if real {
        let p = d.decode().map_err(|e| format!("{:?}: valid stream not decoded: {}", v, describe(&e)))?;
        let i = d.info().map_err(|e| e.kind())?.unwrap();
        if (i.w as usize, i.h as usize) != last || p.len() != i.len() {
            return Err(format!("{:?}: decoded {} bytes, info() {:?}, scale said {:?}", v, p.len(), i, last));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let (data, kind, w, h);
    if t.chance(1, 3) {
        let c = gen::lossless(&mut t, &[1, 3, 4, 1], 2, 16, true);
        (data, kind, w, h) = (c.stream().bytes(), "lossless", c.img.w, c.img.h);
    } else {
        let a = gen::any_stream(&mut t, &BIG, false);
        (data, kind, w, h) = (a.stream.bytes(), a.kind, a.w, a.h);
    }
    r.input(&data);
    let mut set = Set::default();
    if t.chance(1, 2) {
        let k = t.pick(&[4usize, 2, 1, 8]);
        set.scale = Some((refs::scaled(w, k) as u16, refs::scaled(h, k) as u16));
    }
    let free = run(v, &data, &set);
    let p = free.px.as_ref().map_err(|e| format!("valid stream not decoded: {}", describe(e)))?.clone();
    let n = p.len();
    let full = w * h;
    let l = match t.below(9) {
        0 => n,
        1 => n - 1,
        2 => n + 1,
        3 => n.saturating_sub(t.u(0, 8)),
        4 => n + t.u(0, 8),
        5 => t.below(2 * n + 2),
        6 => t.pick(&[0usize, 1, usize::MAX, usize::MAX - 1, 1 << 40, u32::MAX as usize]),
        7 => n * 2,
        _ => full,
    };
    r.desc = format!("{:?} {} {}x{} scale={:?} buffer={} limit={}", v, kind, w, h, set.scale, n, l);
    r.class(format!("{} scaled={} {}", kind, set.scale.is_some(), if l < n { "below" } else { "enough" }));
    r.nontrivial = l.abs_diff(n) <= n;
    let mut d = open(v, &data);
    let early = t.below(3);
    if early == 0 {
        d.set_limit(l);
    }
    if let Some((a, b)) = set.scale {
        d.scale(a, b).map_err(|e| describe(&e))?;
    } else if early == 1 {
        d.read_info().map_err(|e| describe(&e))?;
    }
    if early > 0 {
        if t.chance(1, 3) {
            d.set_limit(t.pick(&[0usize, n, usize::MAX]));
        }
        d.set_limit(l);
    }
    match d.decode() {
        Ok(q) if l < n => Err(format!("{:?}: limit {} but {} bytes returned", v, l, q.len())),
        Ok(q) if q != p => Err(format!("{:?}: a sufficient limit changes the result", v)),
        Ok(_) => Ok(()),
        Err(Fail::Format(_)) if l < n => Ok(()),
        Err(e) => Err(format!("{:?}: limit {} for {} bytes: {}", v, l, n, describe(&e))),
    }
}

// ---------------------------------------------------------------- C15

/// Delivers short reads and interruptions.
struct Choppy {
    d: Arc<Vec<u8>>,
    pos: Arc<AtomicUsize>,
    b: Bulk,
    mode: usize,
    intr: usize,
    burst: usize,
}
impl Read for Choppy {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.burst == 0 && self.intr > 0 && self.b.below(self.intr) == 0 {
            let most = if self.b.chance(1, 200) { 400 } else { 3 };
            self.burst = 1 + self.b.below(most);
        }
        if self.burst > 0 {
            self.burst -= 1;
            if self.burst > 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let p = self.pos.load(SeqCst);
        let max = match self.mode {
            0 => 1,
            1 => 1 + self.b.below(3),
            2 => 1 + self.b.below(64),
            3 => 1 + self.b.below(5000),
            _ => if self.b.chance(1, 2) { 1 } else { usize::MAX },
        };
        let n = (self.d.len() - p).min(buf.len()).min(max);
        buf[..n].copy_from_slice(&self.d[p..p + n]);
        self.pos.store(p + n, SeqCst);
        Ok(n)
    }
}

/// End of the frame header segment and of the EOI marker in an undamaged stream.
fn landmarks(s: &Stream) -> (usize, usize) {
    let (mut p, mut sof) = (0, 0);
    for x in &s.segs {
        p += x.1.len();
        if x.0 == Tag::Sof {
            sof = p;
        }
    }
    (sof, p)
}

fn c15(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let (mut data, valid, mut a, w) = gen::stream_or_corrupt(&mut t, &BIG);
    if valid && t.chance(1, 4) {
        // large segments: skipped and copied ones
        let n = t.pick(&[70usize, 3000, 8190, 8200, 65533]);
        let mut b = t.bulk();
        let sos = a.stream.find(Tag::Sos).unwrap();
        let mut p: Vec<u8> = t.pick(&[b"Exif\0\0".to_vec(), b"ICC_PROFILE\0\x01\x01".to_vec(), b"x".to_vec(), b"JFIF\0".to_vec()]);
        p.extend(b.bytes(n - p.len()));
        a.stream.insert_app(1 + t.below(sos), t.pick(&[1u8, 2, 0, 13, 5]), &p);
        data = a.stream.bytes();
    }
    let (sof_end, eoi_end) = landmarks(&a.stream);
    if t.chance(1, 2) {
        let n = t.u(1, 50);
        let mut b = t.bulk();
        data.extend(b.bytes(n));
    }
    r.input(&data);
    let set = if t.chance(1, 4) { Set::scale(t.u(0, 40), t.u(0, 40)) } else { Set::default() };
    let (mode, intr) = (t.below(5), t.pick(&[0usize, 2, 10, 100]));
    r.desc = format!("{:?} {} {}x{} damaged:{} mode={} interrupts={}", v, a.kind, a.w, a.h, w, mode, intr);
    r.class(format!("{} valid={} mode={} interrupts={}", a.kind, valid, mode, intr > 0));
    r.nontrivial = true;
    let want = run(v, &data, &set);
    let pos = Arc::new(AtomicUsize::new(0));
    let rd = Choppy { d: Arc::new(data.clone()), pos: pos.clone(), b: t.bulk(), mode, intr, burst: 0 };
    let mut d = with_reader(v, Box::new(rd));
    if t.chance(1, 2) {
        let e = d.read_info();
        if e.is_ok() && valid && pos.load(SeqCst) != sof_end {
            return Err(format!("{:?}: read_info stopped at byte {}, the frame header ends at {}", v, pos.load(SeqCst), sof_end));
        }
        if let Err(e) = e {
            return match &want.px {
                Err(x) if *x == e => Ok(()),
                x => Err(format!("{:?}: read_info {} / slice {:?}", v, describe(&e), x.as_ref().map(|p| p.len()).map_err(describe))),
            };
        }
    }
    let got = finish(d.as_mut(), &set);
    if got != want {
        return Err(format!("{:?}: chopped / slice: {}", v, out_diff(&got, &want)));
    }
    if valid && got.px.is_ok() && pos.load(SeqCst) != eoi_end {
        return Err(format!("{:?}: decode stopped at byte {}, EOI ends at {}", v, pos.load(SeqCst), eoi_end));
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

const KINDS: [io::ErrorKind; 12] = [
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::OutOfMemory,
];

struct Faulty {
    d: Arc<Vec<u8>>,
    pos: usize,
    at: usize,
    kind: io::ErrorKind,
    token: Option<u64>,
    once: bool,
    fired: bool,
    chunk: usize,
}
impl Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let blocked = !(self.once && self.fired);
        if self.pos >= self.at && blocked {
            self.fired = true;
            return Err(match self.token {
                Some(k) => io::Error::new(self.kind, Token(k)),
                None => self.kind.into(),
            });
        }
        let end = if blocked { self.at.min(self.d.len()) } else { self.d.len() };
        let n = (end - self.pos).min(buf.len()).min(self.chunk);
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A valid stream with the features that have their own read paths.
fn c16_stream(t: &mut Tape) -> (gen::Any, Stream) {
    let big = t.chance(1, 4);
    let a = gen::any_stream(t, &ImgOpts { big, ..gen::DEF }, true);
    let mut s = a.stream.clone();
    gen::meta_some(t, &mut s);
    if t.chance(1, 5) {
        // trailing RST after scans, fill bytes and garbage before markers
        let mut b = t.bulk();
        let mut out = vec![];
        for x in s.segs {
            let e = x.0 == Tag::Ecs;
            if !e && x.0 != Tag::Soi && b.chance(1, 4) {
                let n = 1 + b.below(4);
                out.push((Tag::Other, vec![0xFF; n]));
            }
            out.push(x);
            if e && b.chance(1, 2) {
                out.push((Tag::Other, vec![0xFF, 0xD0 + b.below(8) as u8]));
            }
        }
        s = Stream { segs: out };
    }
    (a, s)
}

fn cut_pos(t: &mut Tape, s: &Stream, len: usize) -> usize {
    match t.below(3) {
        0 => t.below(len),
        1 => {
            // near a segment boundary
            let i = t.below(s.segs.len());
            let p: usize = s.segs[..i].iter().map(|x| x.1.len()).sum();
            (p + t.below(6)).min(len - 1)
        }
        _ => len - 1 - t.below(len.min(12)),
    }
}

fn c16_cut(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let (a, s) = c16_stream(&mut t);
    let data = s.bytes();
    let (sof_end, _) = landmarks(&s);
    let eof = Fail::Io(io::ErrorKind::UnexpectedEof);
    for _ in 0..4 {
        let cut = cut_pos(&mut t, &s, data.len());
        let d = &data[..cut];
        r.input(d);
        r.desc = format!("{:?} {} {}x{} cut at {} of {}", v, a.kind, a.w, a.h, cut, data.len());
        r.class(format!("{} cut {} the frame header", a.kind, if cut < sof_end { "before the end of" } else { "after" }));
        r.nontrivial = cut > 2;
        match run(v, d, &Set::default()).px {
            Err(e) if e == eof => {}
            Err(e) => return Err(format!("{:?} {}: cut at {} of {}: {}", v, a.kind, cut, data.len(), describe(&e))),
            Ok(_) => return Err(format!("{:?} {}: cut at {} of {} decodes", v, a.kind, cut, data.len())),
        }
        let e = open(v, d).read_info();
        if cut >= sof_end && e != Ok(()) || cut < sof_end && e != Err(eof.clone()) {
            return Err(format!("{:?} {}: read_info on {} bytes (header ends at {}): {:?}", v, a.kind, cut, sof_end, e));
        }
    }
    Ok(())
}

fn c16_fault(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let (a, s) = c16_stream(&mut t);
    let data = Arc::new(s.bytes());
    let (sof_end, end) = landmarks(&s);
    r.input(&data);
    for _ in 0..4 {
        let kind = t.pick(&KINDS);
        let past = t.chance(1, 8);
        let at = if past { data.len() } else { cut_pos(&mut t, &s, data.len()) };
        let once = t.chance(1, 2);
        let chunk = t.pick(&[usize::MAX, 1, 7]);
        // with or without a payload, which must come back
        let token = if t.chance(1, 2) { Some(t.u(0, 1 << 20) as u64) } else { None };
        let mk = || Box::new(Faulty { d: data.clone(), pos: 0, at, kind, token, once, fired: false, chunk });
        let carried = |call: &str| {
            let l = take_io().ok_or("harness: no Io error recorded")?;
            let text = token.map_or_else(|| io::Error::from(kind).to_string(), |k| Token(k).to_string());
            if l.token != token {
                return Err(format!("{:?}: {}: the reader's error had payload {:?}, the returned one {:?}", v, call, token, l.token));
            }
            if !l.source || !l.display.contains(&text) {
                return Err(format!("{:?}: {}: Error::Io shown as {:?} for {:?}, source() gives it: {}", v, call, l.display, text, l.source));
            }
            Ok(())
        };
        r.desc = format!("{:?} {} {}x{} {:?} at byte {} of {} once={} chunk={}", v, a.kind, a.w, a.h, kind, at, data.len(), once, chunk);
        r.class(format!("{} {:?}", a.kind, kind));
        r.nontrivial = true;
        let px = with_reader(v, mk()).decode();
        match px {
            Ok(_) if at >= end => {}
            Err(Fail::Io(k)) if k == kind && at < end => carried("decode")?,
            Ok(_) => return Err(format!("{:?}: {:?} at byte {} of {} (once={}): decoded", v, kind, at, data.len(), once)),
            Err(e) => return Err(format!("{:?}: {:?} at byte {} of {} (once={}): {}", v, kind, at, data.len(), once, describe(&e))),
        }
        let e = with_reader(v, mk()).read_info();
        let want = if at >= sof_end { Ok(()) } else { Err(Fail::Io(kind)) };
        if e != want {
            return Err(format!("{:?}: read_info with {:?} at byte {} (header ends at {}): {:?}", v, kind, at, sof_end, e));
        }
        if e.is_err() {
            carried("read_info")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let (data, valid, a, w) = gen::stream_or_corrupt(&mut t, &BIG);
    r.input(&data);
    r.desc = format!("{:?} {} {}x{} damaged:{}", v, a.kind, a.w, a.h, w);
    let plain = run(v, &data, &Set::default());
    let mut d = open(v, &data);
    match d.read_info() {
        Err(e) if e.is_panic() => Err(e.kind()),
        Err(e) => {
            r.class("read_info error");
            r.nontrivial = true;
            match &plain.px {
                Err(x) if *x == e => Ok(()),
                x => Err(format!("{:?}: read_info {} but decode {:?}", v, describe(&e), x.as_ref().map(|p| p.len()).map_err(describe))),
            }
        }
        Ok(()) => {
            r.nontrivial = true;
            let i = d.info().map_err(|e| e.kind())?;
            if i.is_none() {
                return Err("info() is None after read_info".into());
            }
            let got = finish(d.as_mut(), &Set::default());
            r.class(format!("{} valid={} {}", a.kind, valid, if got.px.is_ok() { "Ok" } else { "Err" }));
            if i != got.info {
                return Err(format!("{:?}: info {:?} after read_info, {:?} after decode", v, i, got.info));
            }
            if got != plain {
                return Err(format!("{:?}: read_info+decode / decode: {}", v, out_diff(&got, &plain)));
            }
            Ok(())
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C02",
            rule: "random histories of up to 8 calls (read_info, scale, set_color_transform, set_max_decoding_buffer_size, info, metadata getters) then decode, on valid and damaged streams with trailing data, compared with a fresh decoder given the final settings; reader position and info() watched after every call; further calls after decode; non-trivial: at least two calls before decode",
            subs: vec![sub("main", c02, 180_000, 1040), sub("huge", |t, r| gen::huge(|| c02(t, r)), 900, 1040)],
            after: None,
            known: none,
            assumptions: &["once a call failed the decoder's later behaviour is only required not to panic (C01)"],
        },
        Check {
            id: "C03",
            rule: "streams of every process, component count, precision and sampling, sizes up to 65535 per axis, scales and overrides: info() equals the frame header, buffer length equals width*height*bytes; damaged streams that still decode too; non-trivial: decoded, more than one pixel (main) / damaged stream decoded (damaged)",
            subs: vec![sub("main", c03, 100_000, 880), sub("huge", |t, r| gen::huge(|| c03(t, r)), 750, 880), sub("damaged", c03_damaged, 100_000, 960)],
            after: None,
            known: c03_known,
            assumptions: &[],
        },
        Check {
            id: "C12",
            rule: "image sizes up to 65535 per axis (header-only streams) and real streams of all processes, sequences of up to 4 scale requests near the thresholds and random; returned size, info() and decoded length against the selection model; non-trivial: more than one pixel",
            subs: vec![sub("main", c12, 240_000, 880), sub("huge", |t, r| gen::huge(|| c12(t, r)), 2_400, 880)],
            after: None,
            known: none,
            assumptions: &["lossless images support only the factor 1"],
        },
        Check {
            id: "C14",
            rule: "streams of every format and scale, limits at, just around and far from the size of the buffer decoded without limit, set before or after read_info/scale; non-trivial: limit within a factor of two of the size",
            subs: vec![sub("main", c14, 180_000, 960), sub("huge", |t, r| gen::huge(|| c14(t, r)), 900, 960)],
            after: None,
            known: none,
            assumptions: &[],
        },
        Check {
            id: "C15",
            rule: "valid and damaged streams (with large APP segments and trailing bytes) read through random short-read schedules with Interrupted errors, compared with the slice outcome; reader position after read_info and decode; every case non-trivial",
            subs: vec![sub("main", c15, 150_000, 1040), sub("huge", |t, r| gen::huge(|| c15(t, r)), 900, 1040)],
            after: None,
            known: none,
            assumptions: &[],
        },
        Check {
            id: "C16",
            rule: "valid streams (also with trailing RST, fill bytes, metadata) cut at 4 positions each (uniform, at segment boundaries, near the end), or read through a reader failing with one of 12 kinds at such a position, persistently or once; non-trivial: cut beyond SOI / every fault",
            subs: vec![sub("cut", c16_cut, 75_000, 1040), sub("huge", |t, r| gen::huge(|| c16_cut(t, r)), 600, 1040), sub("fault", c16_fault, 75_000, 1120)],
            after: None,
            known: none,
            assumptions: &[],
        },
        Check {
            id: "C19",
            rule: "valid and damaged streams decoded with and without a preceding read_info; whole outcome including error text and metadata; every case non-trivial",
            subs: vec![sub("main", c19, 180_000, 1040), sub("huge", |t, r| gen::huge(|| c19(t, r)), 900, 1040)],
            after: None,
            known: none,
            assumptions: &[],
        },
    ]
}
