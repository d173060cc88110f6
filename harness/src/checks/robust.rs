//! Robustness: C01 arbitrary bytes, C20 configurations, C21 schedules, C22 memory safety.
use super::api::out_diff;
use super::{none, sub};
use crate::dec::*;
use crate::enc::*;
use crate::gen::{self, ImgOpts};
use crate::refs;
use crate::runner::{Check, Rec};
use crate::tape::{Bulk, Tape};
use std::io::{self, Read};
use std::sync::{Arc, OnceLock};

const BIG: ImgOpts = ImgOpts { big: true, ..gen::DEF };
const WILD_SMALL: ImgOpts = ImgOpts { q16: true, maxabs: 32767, ..gen::DEF };
const WILD: ImgOpts = ImgOpts { big: true, q16: true, maxabs: 32767, ..gen::DEF };

// ---------------------------------------------------------------- C01

/// Any calls in any order on one decoder; no call may panic.
fn call_around(v: Var, data: &[u8], b: &mut Bulk, r: &mut Rec) -> Result<(), String> {
    let mut d = open(v, data);
    let mut ops = vec![];
    let n = 1 + b.below(6);
    let mut limit = usize::MAX;
    for i in 0..=n {
        let k = if i == n { 1 } else { b.below(7) };
        let res: Res<String> = match k {
            0 => d.read_info().map(|_| "read_info".into()),
            1 | 2 => d.decode().map(|p| format!("decode {}", p.len())),
            3 => {
                let (x, y) = if b.chance(1, 2) { (b.below(65536), b.below(65536)) } else { (b.below(70), b.below(70)) };
                d.scale(x as u16, y as u16).map(|s| format!("scale {:?}", s))
            }
            4 => {
                d.set_ct(CTS[b.below(9)]);
                Ok("ct".into())
            }
            5 => {
                limit = [0, 1000, usize::MAX][b.below(3)];
                d.set_limit(limit);
                Ok("limit".into())
            }
            _ => Ok("get".into()),
        };
        let _ = (d.exif(), d.xmp());
        let icc = d.icc();
        let info = d.info();
        ops.push(match &res {
            Ok(s) => s.clone(),
            Err(e) => format!("{} {}", ["read_info", "decode", "decode", "scale", "", "", ""][k], describe(e)),
        });
        for e in [res.as_ref().err(), icc.as_ref().err(), info.as_ref().err()].into_iter().flatten() {
            if e.is_panic() {
                return Err(format!("{:?}: {} after calls {:?}", v, describe(e), ops));
            }
            if *e == Fail::Internal {
                return Err(format!("{:?}: internal error after calls {:?}", v, ops));
            }
        }
        if k == 1 || k == 2 {
            r.class(match &res {
                Ok(_) => "decode Ok".to_string(),
                Err(e) => format!("decode {}", e.kind()),
            });
        }
        if let (Ok(_), 1 | 2, Ok(Some(_))) = (&res, k, &info) {
            let _ = limit;
        }
    }
    Ok(())
}

fn c01_damaged(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let o = if t.chance(1, 3) { WILD } else { BIG };
    let mut a = gen::any_stream(&mut t, &o, true);
    gen::meta_some(&mut t, &mut a.stream);
    let (mut d, what) = gen::corrupt(&mut t, &a.stream);
    let mut b = t.bulk();
    if b.chance(1, 6) {
        // two streams in a row
        let e = d.clone();
        d.extend_from_slice(&e[if b.chance(1, 2) { 0 } else { e.len().min(2) }..]);
    }
    r.input(&d);
    r.class(a.kind);
    r.desc = format!("{:?} {} {}x{}:{}", v, a.kind, a.w, a.h, what);
    r.nontrivial = true;
    call_around(v, &d, &mut b, r)
}

/// Small streams of every kind, as a starting corpus for the coverage-guided search.
pub fn seeds(dir: &str, n: u64) {
    std::fs::create_dir_all(dir).unwrap();
    for i in 0..n {
        let mut b = Bulk::make(i * 7919);
        let tape: Vec<u32> = (0..1120).map(|_| b.next() as u32).collect();
        let mut t = Tape::new(&tape);
        let mut a = gen::any_stream(&mut t, if i % 3 == 0 { &WILD_SMALL } else { &gen::DEF }, true);
        gen::meta_some(&mut t, &mut a.stream);
        let d = if i % 4 == 3 { gen::corrupt(&mut t, &a.stream).0 } else { a.stream.bytes() };
        if d.len() <= 1500 {
            std::fs::write(format!("{}/seed{}", dir, i), &d).unwrap();
        }
    }
}

/// Valid streams with extreme content and every setting: arithmetic must stay defined.
fn c01_extreme(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let a = gen::any_stream(&mut t, &WILD, true);
    let d = a.stream.bytes();
    r.input(&d);
    r.class(format!("extreme {}", a.kind));
    r.desc = format!("{:?} {} {}x{}", v, a.kind, a.w, a.h);
    r.nontrivial = true;
    let mut b = t.bulk();
    call_around(v, &d, &mut b, r)
}

/// Segments with random content in random order, no valid stream behind them.
fn c01_noise(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&ALL);
    let n = t.below(12);
    let mut b = t.bulk();
    let mut d = if b.chance(15, 16) { vec![0xFF, 0xD8] } else { vec![] };
    let mut seen = 0;
    for _ in 0..n {
        match b.below(12) {
            0 => {
                let k = b.below(60);
                d.extend(b.bytes(k));
            }
            1 => {
                let k = b.below(200);
                let x = b.bytes(k);
                d.extend(seg([0xE0u8, 0xE1, 0xE2, 0xED, 0xEE, 0xFE][b.below(6)], &x));
            }
            2 => {
                // DHT: random counts
                let mut p = vec![(b.below(2) as u8) << 4 | b.below(4) as u8];
                let mut total = 0;
                for i in 0..16 {
                    let x = b.below(1 + i.min(7)) as u8;
                    p.push(x);
                    total += x as usize;
                }
                p.extend(b.bytes(total));
                d.extend(seg(0xC4, &p));
            }
            3 => {
                let mut q = [1u16; 64];
                q.iter_mut().for_each(|x| *x = 1 + b.below(65535) as u16);
                let s = b.below(4) as u8;
                d.extend(seg(0xDB, &dqt_payload(s, &q, true)));
            }
            4 => {
                let x = b.below(40) as u16;
                d.extend(seg(0xDD, &x.to_be_bytes()));
            }
            5 | 6 if seen < 2 => {
                seen += 1;
                let n = [1usize, 3, 4, 2, 3][b.below(5)];
                let cs: Vec<_> = (0..n).map(|i| (i as u8, 1 + b.below(4) as u8, 1 + b.below(4) as u8, b.below(4) as u8)).collect();
                let lossless = b.chance(1, 4);
                let cs: Vec<_> = if lossless { cs.iter().map(|c| (c.0, c.1, c.1, 0)).collect() } else { cs };
                let (w, h) = (1 + b.below(300), 1 + b.below(120));
                let m = if lossless { 0xC3 } else { 0xC0 + b.below(3) as u8 };
                d.extend(seg(m, &sof_payload(if lossless { 2 + b.below(15) as u8 } else { 8 }, w, h, &cs)));
            }
            7 | 8 | 9 => {
                let n = [1usize, 1, 3, 4, 2][b.below(5)];
                let cs: Vec<_> = (0..n).map(|i| (if n == 1 { b.below(4) as u8 } else { i as u8 }, b.below(4) as u8, b.below(4) as u8)).collect();
                let (ss, se) = [(0u8, 63u8), (0, 0), (1, 63), (1, 5), (6, 63), (1, 0), (5, 0), (7, 0)][b.below(8)];
                let al = b.below(14) as u8;
                let (ah, al) = [(0, 0), (0, al), (al + 1, al), (0, 0)][b.below(4)];
                d.extend(seg(0xDA, &sos_payload(&cs, ss, se, ah, al)));
                let k = b.below(400);
                let style = b.below(3);
                for _ in 0..k {
                    let x = match style {
                        0 => b.byte(),
                        1 => [0, 0, 0, 0x80, 0x7F][b.below(5)],
                        _ => 0xFE | b.byte(),
                    };
                    d.push(x);
                    if x == 0xFF && !b.chance(1, 40) {
                        d.push(if b.chance(1, 20) { 0xD0 + b.below(8) as u8 } else { 0 });
                    }
                }
            }
            10 => d.extend([0xFF, 0xD9]),
            _ => d.extend([0xFF, b.byte()]),
        }
    }
    gen::clamp_frames(&mut d, &mut b);
    r.input(&d);
    r.class("segments");
    r.desc = format!("{:?} noise of {} bytes", v, d.len());
    r.nontrivial = d.len() > 20;
    call_around(v, &d, &mut b, r)
}

// ---------------------------------------------------------------- C20

/// Any block whose vector arithmetic saturates (listed finding of C04)?
fn saturating(img: &Image) -> bool {
    img.comps.iter().any(|c| c.blocks.iter().any(|b| refs::simd_saturates(b, &c.q)))
}

fn c20(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let o = if t.chance(1, 4) { WILD } else { BIG };
    let (data, valid, a, what) = gen::stream_or_corrupt(&mut t, &o);
    r.input(&data);
    let mut set = Set::default();
    if t.chance(1, 3) {
        let k = t.pick(&[4usize, 2, 1, 8]);
        set.scale = Some((refs::scaled(a.w, k) as u16, refs::scaled(a.h, k) as u16));
    }
    if t.chance(1, 4) {
        set.ct = Some(t.pick(&CTS));
    }
    if t.chance(1, 8) {
        set.limit = Some(t.pick(&[a.w * a.h, a.w * a.h * a.ncomp, a.w * a.h * a.ncomp - 1]));
    }
    let def = run(Var::Def, &data, &set);
    let nr = run(Var::Nr, &data, &set);
    let pi = run(Var::Pi, &data, &set);
    let pinr = run(Var::PiNr, &data, &set);
    r.desc = format!("{} {}x{} damaged:{} scale={:?} override={:?}", a.kind, a.w, a.h, what, set.scale, set.ct);
    r.class(format!("{} valid={} {}", a.kind, valid, if def.px.is_ok() { "Ok" } else { "Err" }));
    r.nontrivial = true;
    if def != nr {
        return Err(format!("with / without rayon: {}", out_diff(&def, &nr)));
    }
    if pi != pinr {
        return Err(format!("platform_independent with / without rayon: {}", out_diff(&pi, &pinr)));
    }
    match (&def.px, &pi.px) {
        (Ok(p), Ok(q)) => {
            let same = Out { px: Ok(p.clone()), ..pi.clone() };
            if def != same {
                return Err(format!("SIMD / platform_independent: {}", out_diff(&def, &same)));
            }
            if p.len() != q.len() {
                return Err(format!("SIMD / platform_independent: {} and {} bytes", p.len(), q.len()));
            }
            let i = def.info.ok_or("info() is None after decode")?;
            let scaled = (i.w as usize, i.h as usize) != (a.w, a.h);
            let exact = i.proc == Proc::Lossless && i.fmt == Fmt::L8 || i.proc == Proc::Lossless && i.fmt == Fmt::L16;
            let img = a.img.as_ref().filter(|_| valid && i.proc != Proc::Lossless);
            // scaled output shares the inverse DCT; only the colour conversion differs
            let colour = i.fmt != Fmt::L8 && i.fmt != Fmt::L16;
            let tol = if exact || (scaled && img.is_some() && !colour) {
                Some(0)
            } else if i.proc == Proc::Lossless || (scaled && img.is_some()) {
                Some(1)
            } else if img.map_or(false, |m| a.px && !saturating(m)) {
                Some(if colour { 4 } else { 1 })
            } else {
                None
            };
            if let Some(tol) = tol {
                let mut worst = 0;
                let mut sum = 0i64;
                for (k, (x, y)) in p.iter().zip(q).enumerate() {
                    let e = *x as i64 - *y as i64;
                    sum += e;
                    worst = worst.max(e.abs());
                    if e.abs() > tol {
                        let px = k / i.pb.max(1);
                        return Err(format!(
                            "SIMD / platform_independent at x={} y={} channel {}: {} vs {}",
                            px % i.w as usize, px / i.w as usize, k % i.pb.max(1), x, y
                        ));
                    }
                }
                r.class(format!("compared, tolerance {}", tol));
                if tol == 4 { r.num("SIMD/portable difference, colour", worst as f64); }
                if tol == 1 { r.num("SIMD/portable difference, gray or scaled", worst as f64); }
                let _ = sum;
            }
        }
        (Err(x), Err(y)) if x == y => {
            if def != pi {
                return Err(format!("SIMD / platform_independent after an error: {}", out_diff(&def, &pi)));
            }
        }
        _ => return Err(format!("SIMD / platform_independent: {}", out_diff(&def, &pi))),
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn pool(k: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let v = P.get_or_init(|| [1usize, 2, 3, 4, 8, 16].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect());
    &v[k % v.len()]
}

/// Hands out small pieces, giving other threads a chance in between; may use the pool itself.
struct Yielding {
    d: Arc<Vec<u8>>,
    pos: usize,
    b: Bulk,
    mode: usize,
}
impl Read for Yielding {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.b.chance(1, 16) {
            match self.mode {
                0 => std::thread::yield_now(),
                1 => {
                    rayon::join(std::thread::yield_now, || {});
                }
                2 if self.b.chance(1, 16) => std::thread::sleep(std::time::Duration::from_micros(20)),
                _ => {}
            }
        }
        let n = (self.d.len() - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const WIDE: ImgOpts = ImgOpts { big: true, ncomp: &[3, 3, 4, 1], ..gen::DEF };

fn c21(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let k = t.u(1, 4);
    let mut cases: Vec<(Var, Arc<Vec<u8>>, Set, Out)> = vec![];
    let mut total = vec![];
    for _ in 0..k {
        let (d, _, a, _) = match t.below(3) {
            0 => {
                // unfinished progressive: rows in parallel
                let (mut img, _) = gen::image(&mut t, &WIDE);
                if t.chance(1, 2) && img.w < 129 {
                    // make it wide enough for the worker threads
                    let cs: Vec<_> = img.comps.iter().map(|c| (c.id, c.h, c.v, c.tq)).collect();
                    let (w, h) = (t.u(129, 200), t.u(8, 64));
                    img = Image::new(w, h, &cs);
                    gen::fill(&mut t, &mut img, &WIDE);
                }
                let mut plan = gen::prog_plan(&mut t, &img);
                let n = t.u(1, plan.scans.len());
                plan.scans.truncate(n);
                plan.dqt_early = plan.dqt_early || true;
                let s = encode(&img, &plan);
                let (w, h) = (img.w, img.h);
                let a = gen::Any { stream: s.clone(), kind: "progressive", w, h, ncomp: img.comps.len(), prec: 8, px: true, img: None };
                (s.bytes(), true, a, String::new())
            }
            _ => gen::stream_or_corrupt(&mut t, &WIDE),
        };
        let mut set = Set::default();
        if t.chance(1, 3) {
            let f = t.pick(&[4usize, 2, 1]);
            set.scale = Some((refs::scaled(a.w, f) as u16, refs::scaled(a.h, f) as u16));
        }
        let v = t.pick(&ALL);
        let base = run(v, &d, &set);
        if let Err(e) = &base.px {
            if e.is_panic() {
                return Err(describe(e));
            }
        }
        r.class(format!("{} wide={} {}", a.kind, a.w > 128, if base.px.is_ok() { "Ok" } else { "Err" }));
        total.extend_from_slice(&d);
        cases.push((v, Arc::new(d), set, base));
    }
    r.input(&total);
    let mode = t.below(6);
    let (p, q) = (t.below(6), t.below(6));
    let seed = t.raw() as u64;
    let rep = t.u(1, 4);
    let rmode = t.below(4);
    r.class(format!("mode {}", mode));
    r.desc = format!("mode {} pool {} reader {} rep {} streams {:?}", mode, p, rmode, rep, cases.iter().map(|c| (c.0, c.1.len())).collect::<Vec<_>>());
    r.nontrivial = true;
    let go = |i: usize| -> Result<(), String> {
        let c = &cases[i % cases.len()];
        let rd = Yielding { d: c.1.clone(), pos: 0, b: Bulk::make(seed ^ i as u64), mode: rmode };
        let o = finish(with_reader(c.0, Box::new(rd)).as_mut(), &c.2);
        if o != c.3 {
            return Err(format!("{:?} in mode {}: {}", c.0, mode, out_diff(&o, &c.3)));
        }
        Ok(())
    };
    let n = cases.len() * rep;
    let all = |rs: Vec<Result<(), String>>| rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ());
    match mode {
        // from a pool of the given size
        0 => pool(p).install(|| all((0..n).map(go).collect())),
        // many at a time in the pool
        1 => {
            use rayon::prelude::*;
            pool(p).install(|| all((0..n).into_par_iter().map(go).collect()))
        }
        // nested: inside join inside the pool
        2 => pool(p).install(|| {
            let (a, b) = rayon::join(|| all((0..n).map(go).collect()), || rayon::join(|| go(0), || go(n - 1)));
            a.and(b.0).and(b.1)
        }),
        // one pool from within another
        3 => pool(p).install(|| pool(q).install(|| all((0..n).map(go).collect()))),
        // plain threads outside of any pool
        4 => {
            let rs: Vec<_> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n.min(8)).map(|i| s.spawn({ let go = &go; move || go(i) })).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
            });
            all(rs)
        }
        // scope tasks from plain threads into one pool
        _ => {
            let rs = std::sync::Mutex::new(vec![]);
            pool(p).scope(|s| {
                for i in 0..n {
                    let (go, rs) = (&go, &rs);
                    s.spawn(move |_| {
                        let x = go(i);
                        rs.lock().unwrap().push(x);
                    });
                }
            });
            all(rs.into_inner().unwrap())
        }
    }
}

fn thread_names() -> Vec<String> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            v.push(std::fs::read_to_string(e.path().join("comm")).unwrap_or_default().trim().to_string());
        }
    }
    v
}

/// Decode many streams, good and bad, and see that no worker thread stays behind.
fn c21_after() -> Result<(), String> {
    let before = thread_names().len();
    let mut b = Bulk::make(77);
    let mut failed = 0;
    for k in 0..400u64 {
        let mut tape = vec![0u32; 250];
        tape.iter_mut().for_each(|x| *x = b.next() as u32);
        let mut t = Tape::new(&tape);
        let (mut img, _) = gen::image(&mut t, &WIDE);
        let cs: Vec<_> = img.comps.iter().map(|c| (c.id, c.h, c.v, c.tq)).collect();
        img = Image::new(129 + (k % 40) as usize, 20, &cs);
        gen::fill(&mut t, &mut img, &WIDE);
        let plan = if k % 2 == 0 { gen::seq_plan(&mut t, &img) } else { gen::prog_plan(&mut t, &img) };
        let s = encode(&img, &plan);
        let d = match k % 4 {
            0 => s.bytes(),
            1 => {
                let d = s.bytes();
                let l = d.len() * (1 + b.below(9)) / 10;
                d[..l].to_vec()
            }
            _ => gen::corrupt(&mut t, &s).0,
        };
        for v in [Var::Nr, Var::PiNr, Var::Def] {
            let mut dec = open(v, &d);
            if k % 3 == 0 {
                dec.set_limit(10);
            }
            failed += dec.decode().is_err() as usize;
        }
    }
    // ended threads may take a moment to disappear
    let t0 = std::time::Instant::now();
    loop {
        let now = thread_names();
        // rayon's global pool may have been started meanwhile
        let extra = rayon::current_num_threads();
        if now.len() <= before + extra {
            return Ok(());
        }
        if t0.elapsed().as_secs() > 20 {
            return Err(format!("{} threads before, {} after 1200 decodes ({} failed): {:?}", before, now.len(), failed, now.iter().take(40).collect::<Vec<_>>()));
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
}

// ---------------------------------------------------------------- C22

fn c22(tape: &[u32], r: &mut Rec) -> Result<(), String> {
    let mut t = Tape::new(tape);
    let v = t.pick(&[Var::Def, Var::Nr, Var::Def, Var::Pi]);
    let o = if t.chance(1, 3) { WILD } else { BIG };
    let (data, valid, a, what) = match t.below(4) {
        0 => {
            // colour lines of every width around the vector size
            let (w, h) = (t.u(1, 70), t.u(1, 3));
            let n = t.pick(&[3usize, 4, 1]);
            let sf = gen::sampling(&mut t, n, 1, true);
            let mut img = Image::new(w, h, &(0..n).map(|i| (i as u8 + 1, sf[i].0, sf[i].1, 0)).collect::<Vec<_>>());
            gen::fill(&mut t, &mut img, &gen::DEF);
            let plan = gen::seq_plan(&mut t, &img);
            let s = encode(&img, &plan);
            let d = s.bytes();
            (d, true, gen::Any { stream: s, kind: "line", w, h, ncomp: n, prec: 8, px: true, img: None }, String::new())
        }
        _ => gen::stream_or_corrupt(&mut t, &o),
    };
    r.input(&data);
    let mut b = t.bulk();
    let mut set = Set::default();
    if b.chance(1, 2) {
        let k = [8usize, 4, 2, 1][b.below(4)];
        set.scale = Some((refs::scaled(a.w, k) as u16, refs::scaled(a.h, k) as u16));
    }
    if b.chance(1, 4) {
        set.ct = Some(CTS[b.below(9)]);
    }
    r.desc = format!("{:?} {} {}x{} damaged:{} scale={:?} override={:?}", v, a.kind, a.w, a.h, what, set.scale, set.ct);
    let out = run(v, &data, &set);
    r.class(format!("{} valid={} {}", a.kind, valid, if out.px.is_ok() { "Ok" } else { "Err" }));
    r.class(format!("width mod 8 = {}", a.w % 8));
    r.nontrivial = out.px.is_ok();
    match out.px {
        Err(e) if e.is_panic() => Err(format!("{:?}: {}", v, describe(&e))),
        Ok(p) => {
            // touch the result: reads uninitialised or freed memory under the sanitizer otherwise
            std::hint::black_box(p.iter().map(|&x| x as u64).sum::<u64>());
            Ok(())
        }
        _ => Ok(()),
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "valid streams of every process damaged by 1..4 byte- and segment-level changes, streams of random segments, and valid streams with extreme coefficients and tables, each under a random sequence of up to 7 calls (decode, read_info, scale, overrides, limits, getters) in four feature configurations (two with overflow and debug checks); a panic, abort, internal error, 90 s of CPU or endless polling at the end of data is a violation; non-trivial: all but the shortest noise",
            subs: vec![sub("damaged", c01_damaged, 360_000, 1120), sub("noise", c01_noise, 360_000, 80), sub("extreme", c01_extreme, 90_000, 1040), sub("huge", |t, r| gen::huge(|| c01_extreme(t, r)), 300, 1040)],
            after: None,
            known: none,
            assumptions: &["frames above 512x512 (and 65535x8) are not generated in damaged streams: memory use is proportional to the frame header by design"],
        },
        Check {
            id: "C20",
            rule: "valid and damaged streams of every process, scales, overrides and limits through the four builds: rayon on/off identical in everything, SIMD on/off identical in outcome, error, info and metadata, exact for gray lossless and gray scaled output, within 1 for lossless colour and scaled output, within 1 (gray) or 4 (colour) on displayable content; every case non-trivial",
            subs: vec![sub("main", c20, 200_000, 1120), sub("huge", |t, r| gen::huge(|| c20(t, r)), 1_000, 1120)],
            after: None,
            known: none,
            assumptions: &["images with a block whose 16-bit vector arithmetic saturates are not compared pixel by pixel (listed finding of C04)"],
        },
        Check {
            id: "C21",
            rule: "1..4 streams (many wide enough for worker threads, unfinished progressive ones, damaged ones) decoded repeatedly from pools of 1..16 threads, in parallel iterators, nested joins and pools, plain threads and scopes, through readers that yield, sleep or use the pool; every outcome equals the lone decode; watchdog for deadlocks; afterwards no worker thread is left; every case non-trivial",
            subs: vec![sub("main", c21, 30_000, 2800), sub("huge", |t, r| gen::huge(|| c21(t, r)), 60, 2800)],
            after: Some(c21_after),
            known: none,
            assumptions: &["schedules are sampled by the operating system, not enumerated"],
        },
        Check {
            id: "C22",
            rule: "valid and damaged streams, colour lines of every width 1..70, scales and overrides in an AddressSanitizer build (heap buffers of exact size); a sanitizer report is a violation; non-trivial: decoded",
            subs: vec![sub("main", c22, 120_000, 1120), sub("huge", |t, r| gen::huge(|| c22(t, r)), 450, 1120)],
            after: None,
            known: none,
            assumptions: &["the instrumentation covers the crate and the standard library code compiled into it"],
        },
    ]
}
