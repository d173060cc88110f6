#![no_main]
//! Coverage-guided search over bytes: relations that must hold for every byte sequence, chosen by FUZZ_PROP.
#[allow(dead_code)]
#[path = "../../harness/src/dec.rs"]
mod dec;
use dec::*;
use libfuzzer_sys::fuzz_target;
use std::io::{self, Read};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};

/// Small frames only: time and memory are proportional to the frame by design.
fn clamp(d: &mut [u8]) {
    for i in 0..d.len().saturating_sub(8) {
        if d[i] == 0xFF && (0xC0..=0xCF).contains(&d[i + 1]) && ![0xC4, 0xC8, 0xCC].contains(&d[i + 1]) {
            d[i + 5] = 0;
            d[i + 7] = 0;
        }
    }
}

struct Slow {
    d: Arc<Vec<u8>>,
    pos: Arc<AtomicUsize>,
    s: u64,
    short: bool,
    end: io::ErrorKind,
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = self.pos.load(SeqCst);
        let mut n = (self.d.len() - p).min(b.len());
        if n == 0 && !b.is_empty() && self.end != io::ErrorKind::UnexpectedEof {
            return Err(self.end.into());
        }
        if self.short && n > 0 {
            self.s = self.s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let x = (self.s >> 33) as usize;
            if x % 7 == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            n = n.min(1 + (x >> 4) % 5);
        }
        b[..n].copy_from_slice(&self.d[p..p + n]);
        self.pos.store(p + n, SeqCst);
        Ok(n)
    }
}
fn slow(v: Var, d: &Arc<Vec<u8>>, short: bool, s: u64, end: io::ErrorKind) -> (Box<dyn Dec>, Arc<AtomicUsize>) {
    let pos = Arc::new(AtomicUsize::new(0));
    (with_reader(v, Box::new(Slow { d: d.clone(), pos: pos.clone(), s, short, end })), pos)
}

fn die(p: &str, m: String) -> ! {
    eprintln!("FAILED property={} {}", p, m);
    std::process::abort()
}
fn kind(o: &Out) -> String {
    match &o.px {
        Ok(p) => format!("Ok {}", p.len()),
        Err(e) => e.kind(),
    }
}
fn brief(o: &Out) -> String {
    format!("{} info {:?} exif {:?} xmp {:?} icc {:?}", match &o.px { Ok(p) => format!("Ok {}", p.len()), Err(e) => describe(e) }, o.info, o.exif.as_ref().map(|x| x.len()), o.xmp.as_ref().map(|x| x.len()), o.icc.as_ref().map(|x| x.len()))
}
fn panics(p: &str, o: &Out) {
    if let Err(e) = &o.px {
        if e.is_panic() || *e == Fail::Internal {
            die(p, describe(e));
        }
    }
}

static PROP: OnceLock<String> = OnceLock::new();

fuzz_target!(
init: {
    PROP.set(std::env::var("FUZZ_PROP").unwrap_or("ALL".into())).unwrap();
    install_hook();
    rayon::ThreadPoolBuilder::new().num_threads(1).build_global().unwrap();
},
|data: &[u8]| {
    let want = PROP.get().unwrap().as_str();
    let on = |p: &str| want == "ALL" || want == p;
    let mut d = data.to_vec();
    clamp(&mut d);
    let h = d.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    let mut s = Set::default();
    match h % 8 {
        0 => s.ct = Some(CTS[(h >> 8) as usize % 9]),
        1 => s.scale = Some(((h >> 8) as u16 % 40, (h >> 24) as u16 % 40)),
        _ => {}
    }
    let d = Arc::new(d);
    let (mut a, pa) = slow(Var::Def, &d, false, 0, io::ErrorKind::UnexpectedEof);
    let o = finish(a.as_mut(), &s);
    drop(a);
    let used = pa.load(SeqCst);
    if on("C01") {
        panics("C01", &o);
    } else if matches!(&o.px, Err(e) if e.is_panic()) {
        return;
    }
    if on("C03") {
        if let (Ok(p), i) = (&o.px, &o.info) {
            let i = i.unwrap_or_else(|| die("C03", "decoded, but info() is None".into()));
            let wide = i.proc == Proc::Lossless && i.pb > 2 && p.len() == 2 * i.len();
            if p.len() != i.len() && !wide {
                die("C03", format!("{} bytes, info {:?}", p.len(), i));
            }
        }
    }
    if on("C01") || on("C20") {
        let n = run(Var::Nr, &d, &s);
        let p = run(Var::Pi, &d, &s);
        let q = run(Var::PiNr, &d, &s);
        for x in [&n, &p, &q] {
            if on("C01") {
                panics("C01", x);
            } else if matches!(&x.px, Err(e) if e.is_panic()) {
                return;
            }
        }
        if on("C20") {
            if o != n {
                die("C20", format!("rayon: {}\nno rayon: {}", brief(&o), brief(&n)));
            }
            if p != q {
                die("C20", format!("portable rayon: {}\nportable no rayon: {}", brief(&p), brief(&q)));
            }
            if (kind(&o), o.info, &o.exif, &o.xmp, &o.icc) != (kind(&p), p.info, &p.exif, &p.xmp, &p.icc) {
                die("C20", format!("SIMD: {}\nportable: {}", brief(&o), brief(&p)));
            }
        }
    }
    if on("C15") {
        let (mut x, px) = slow(Var::Def, &d, true, h, io::ErrorKind::UnexpectedEof);
        let n = finish(x.as_mut(), &s);
        drop(x);
        if o != n || used != px.load(SeqCst) {
            die("C15", format!("slice: {} ({} bytes read)\nshort reads: {} ({})", brief(&o), used, brief(&n), px.load(SeqCst)));
        }
    }
    if on("C19") {
        let mut x = open(Var::Def, &d);
        let e = x.read_info();
        let n = match &e {
            Err(e) if e.is_panic() && on("C01") => die("C01", describe(e)),
            Err(e) => Out { px: Err(e.clone()), info: None, exif: None, xmp: None, icc: None },
            Ok(()) => finish(x.as_mut(), &s),
        };
        let same = if e.is_err() { o.px == n.px } else { o == n };
        if !same && !(e.is_err() && s.scale.is_some()) {
            die("C19", format!("decode: {}\nafter read_info ({:?}): {}", brief(&o), e, brief(&n)));
        }
    }
    if let Ok(p) = &o.px {
        if on("C14") {
            let l = |l: usize| run(Var::Def, &d, &Set { limit: Some(l), ..s.clone() });
            if l(p.len()) != o {
                die("C14", "limit of exactly the size".into());
            }
            if p.len() > 0 && !matches!(l(p.len() - 1).px, Err(Fail::Format(_))) {
                die("C14", "limit one below the size".into());
            }
        }
        if on("C16") && used > 0 {
            let cut = (h >> 20) as usize % used;
            let c = Arc::new(d[..cut].to_vec());
            let (mut x, _) = slow(Var::Def, &c, false, 0, io::ErrorKind::UnexpectedEof);
            let n = finish(x.as_mut(), &s);
            if n.px != Err(Fail::Io(io::ErrorKind::UnexpectedEof)) {
                die("C16", format!("cut at {} of {}: {}", cut, used, brief(&n)));
            }
            let (mut x, _) = slow(Var::Def, &c, false, 0, io::ErrorKind::TimedOut);
            let n = finish(x.as_mut(), &s);
            if n.px != Err(Fail::Io(io::ErrorKind::TimedOut)) {
                die("C16", format!("fault at {} of {}: {}", cut, used, brief(&n)));
            }
        }
    }
});
