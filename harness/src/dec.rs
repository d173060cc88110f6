//! One interface over the four builds of the decoder.
use std::cell::RefCell;
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Var {
    /// rayon + SIMD
    Def,
    /// no rayon (worker threads) + SIMD, overflow checks on
    Nr,
    /// rayon + platform_independent, overflow checks on
    Pi,
    /// neither
    PiNr,
}
pub const ALL: [Var; 4] = [Var::Def, Var::Nr, Var::Pi, Var::PiNr];

impl Var {
    pub fn simd(self) -> bool {
        matches!(self, Var::Def | Var::Nr)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    L8,
    L16,
    Rgb24,
    Cmyk32,
}
impl Fmt {
    pub fn bytes(self) -> usize {
        match self {
            Fmt::L8 => 1,
            Fmt::L16 => 2,
            Fmt::Rgb24 => 3,
            Fmt::Cmyk32 => 4,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Proc {
    Seq,
    Prog,
    Lossless,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ct {
    None,
    Unknown,
    Grayscale,
    Rgb,
    YCbCr,
    Cmyk,
    Ycck,
    BgYcc,
    BgRgb,
}
pub const CTS: [Ct; 9] =
    [Ct::None, Ct::Unknown, Ct::Grayscale, Ct::Rgb, Ct::YCbCr, Ct::Cmyk, Ct::Ycck, Ct::BgYcc, Ct::BgRgb];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Info {
    pub w: u16,
    pub h: u16,
    pub fmt: Fmt,
    pub proc: Proc,
    /// PixelFormat::pixel_bytes as the crate reports it
    pub pb: usize,
}
impl Info {
    pub fn len(&self) -> usize {
        self.w as usize * self.h as usize * self.pb
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Fail {
    Format(String),
    Unsupported(String),
    Io(io::ErrorKind),
    Internal,
    Panic(String),
}
impl Fail {
    /// without the message text
    pub fn kind(&self) -> String {
        match self {
            Fail::Format(_) => "Format".into(),
            Fail::Unsupported(f) => format!("Unsupported({})", f),
            Fail::Io(k) => format!("Io({:?})", k),
            Fail::Internal => "Internal".into(),
            Fail::Panic(m) => format!("PANIC: {}", m),
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Fail::Panic(_))
    }
    pub fn is_format(&self) -> bool {
        matches!(self, Fail::Format(_))
    }
}

pub type Res<T> = Result<T, Fail>;

pub trait Dec {
    fn read_info(&mut self) -> Res<()>;
    fn scale(&mut self, w: u16, h: u16) -> Res<(u16, u16)>;
    fn decode(&mut self) -> Res<Vec<u8>>;
    fn info(&self) -> Res<Option<Info>>;
    fn exif(&self) -> Option<Vec<u8>>;
    fn xmp(&self) -> Option<Vec<u8>>;
    fn icc(&self) -> Res<Option<Vec<u8>>>;
    fn set_ct(&mut self, c: Ct);
    fn set_limit(&mut self, l: usize);
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Payload of the errors a faulty reader returns.
#[derive(Debug)]
pub struct Token(pub u64);
impl std::fmt::Display for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "token<{}>", self.0)
    }
}
impl std::error::Error for Token {}

/// What the last Error::Io met on this thread looked like.
pub struct LastIo {
    pub token: Option<u64>,
    pub source: bool,
    pub display: String,
}
thread_local! {
    static LAST_IO: RefCell<Option<LastIo>> = RefCell::new(None);
}
pub fn take_io() -> Option<LastIo> {
    LAST_IO.with(|x| x.borrow_mut().take())
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if std::env::var_os("JD_PANIC").is_some() {
            eprintln!("{}", s);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        if !m.is_empty() {
            m.replace('\n', " ")
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

type Rd = Box<dyn Read + Send>;

macro_rules! wrap {
    ($m:ident, $c:ident) => {
        mod $m {
            use super::*;
            pub struct D(pub $c::Decoder<Rd>);
            fn fail(e: $c::Error) -> Fail {
                if let $c::Error::Io(i) = &e {
                    use std::error::Error as _;
                    let src = e.source().and_then(|s| s.downcast_ref::<io::Error>());
                    let l = LastIo {
                        token: i.get_ref().and_then(|p| p.downcast_ref::<Token>()).map(|t| t.0),
                        source: src.map_or(false, |s| std::ptr::eq(s, i)),
                        display: e.to_string(),
                    };
                    LAST_IO.with(|x| *x.borrow_mut() = Some(l));
                }
                match e {
                    $c::Error::Format(s) => Fail::Format(s),
                    $c::Error::Unsupported(f) => Fail::Unsupported(format!("{:?}", f)),
                    $c::Error::Io(e) => Fail::Io(e.kind()),
                    $c::Error::Internal(_) => Fail::Internal,
                }
            }
            fn run<T>(f: impl FnOnce() -> Result<T, $c::Error>) -> Res<T> {
                match guard(f) {
                    Ok(r) => r.map_err(fail),
                    Err(m) => Err(Fail::Panic(m)),
                }
            }
            pub fn ct(c: Ct) -> $c::ColorTransform {
                use $c::ColorTransform as T;
                match c {
                    Ct::None => T::None,
                    Ct::Unknown => T::Unknown,
                    Ct::Grayscale => T::Grayscale,
                    Ct::Rgb => T::RGB,
                    Ct::YCbCr => T::YCbCr,
                    Ct::Cmyk => T::CMYK,
                    Ct::Ycck => T::YCCK,
                    Ct::BgYcc => T::JcsBgYcc,
                    Ct::BgRgb => T::JcsBgRgb,
                }
            }
            impl Dec for D {
                fn read_info(&mut self) -> Res<()> {
                    run(|| self.0.read_info())
                }
                fn scale(&mut self, w: u16, h: u16) -> Res<(u16, u16)> {
                    run(|| self.0.scale(w, h))
                }
                fn decode(&mut self) -> Res<Vec<u8>> {
                    run(|| self.0.decode())
                }
                fn info(&self) -> Res<Option<Info>> {
                    let i = guard(|| self.0.info()).map_err(Fail::Panic)?;
                    Ok(i.map(|i| Info {
                        w: i.width,
                        h: i.height,
                        fmt: match i.pixel_format {
                            $c::PixelFormat::L8 => Fmt::L8,
                            $c::PixelFormat::L16 => Fmt::L16,
                            $c::PixelFormat::RGB24 => Fmt::Rgb24,
                            $c::PixelFormat::CMYK32 => Fmt::Cmyk32,
                        },
                        proc: match i.coding_process {
                            $c::CodingProcess::DctSequential => Proc::Seq,
                            $c::CodingProcess::DctProgressive => Proc::Prog,
                            $c::CodingProcess::Lossless => Proc::Lossless,
                        },
                        pb: i.pixel_format.pixel_bytes(),
                    }))
                }
                fn exif(&self) -> Option<Vec<u8>> {
                    self.0.exif_data().map(|x| x.to_vec())
                }
                fn xmp(&self) -> Option<Vec<u8>> {
                    self.0.xmp_data().map(|x| x.to_vec())
                }
                fn icc(&self) -> Res<Option<Vec<u8>>> {
                    guard(|| self.0.icc_profile()).map_err(Fail::Panic)
                }
                fn set_ct(&mut self, c: Ct) {
                    self.0.set_color_transform(ct(c))
                }
                fn set_limit(&mut self, l: usize) {
                    self.0.set_max_decoding_buffer_size(l)
                }
            }
        }
    };
}
wrap!(def, jpeg_decoder);
wrap!(nr, jd_nr);
wrap!(pi, jd_pi);
wrap!(pinr, jd_pinr);

pub fn with_reader(v: Var, r: Rd) -> Box<dyn Dec> {
    match v {
        Var::Def => Box::new(def::D(jpeg_decoder::Decoder::new(r))),
        Var::Nr => Box::new(nr::D(jd_nr::Decoder::new(r))),
        Var::Pi => Box::new(pi::D(jd_pi::Decoder::new(r))),
        Var::PiNr => Box::new(pinr::D(jd_pinr::Decoder::new(r))),
    }
}

/// In-memory reader; polling it again and again after its end is reported as a panic
/// (a decoder that never gives up would otherwise hang the check).
pub struct Src {
    d: std::sync::Arc<Vec<u8>>,
    pos: usize,
    eof: u32,
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.d.len() - self.pos).min(b.len());
        if n == 0 && !b.is_empty() {
            self.eof += 1;
            if self.eof > 5_000_000 {
                panic!("reader polled {} times after the end of the data", self.eof);
            }
            return Ok(0);
        }
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn open(v: Var, data: &[u8]) -> Box<dyn Dec> {
    with_reader(v, Box::new(Src { d: std::sync::Arc::new(data.to_vec()), pos: 0, eof: 0 }))
}

pub fn open_arc(v: Var, data: &std::sync::Arc<Vec<u8>>) -> Box<dyn Dec> {
    with_reader(v, Box::new(Src { d: data.clone(), pos: 0, eof: 0 }))
}

#[derive(Clone, Default, Debug)]
pub struct Set {
    pub ct: Option<Ct>,
    pub scale: Option<(u16, u16)>,
    pub limit: Option<usize>,
}
impl Set {
    pub fn ct(c: Ct) -> Set {
        Set { ct: Some(c), ..Default::default() }
    }
    pub fn scale(w: usize, h: usize) -> Set {
        Set { scale: Some((w as u16, h as u16)), ..Default::default() }
    }
}

/// Everything observable of one decode.
#[derive(Clone, PartialEq, Debug)]
pub struct Out {
    pub px: Result<Vec<u8>, Fail>,
    pub info: Option<Info>,
    pub exif: Option<Vec<u8>>,
    pub xmp: Option<Vec<u8>>,
    pub icc: Option<Vec<u8>>,
}

pub fn finish(d: &mut dyn Dec, s: &Set) -> Out {
    if let Some(c) = s.ct {
        d.set_ct(c);
    }
    if let Some(l) = s.limit {
        d.set_limit(l);
    }
    let mut px = Ok(vec![]);
    if let Some((w, h)) = s.scale {
        if let Err(e) = d.scale(w, h) {
            px = Err(e);
        }
    }
    if px.is_ok() {
        px = d.decode();
    }
    let info = match d.info() {
        Ok(i) => i,
        Err(e) => {
            px = Err(e);
            None
        }
    };
    let icc = match d.icc() {
        Ok(i) => i,
        Err(e) => {
            px = Err(e);
            None
        }
    };
    Out { px, info, exif: d.exif(), xmp: d.xmp(), icc }
}

pub fn run(v: Var, data: &[u8], s: &Set) -> Out {
    finish(open(v, data).as_mut(), s)
}

/// Pixels of a stream that must decode.
pub fn pixels(v: Var, data: &[u8], s: &Set) -> Result<(Vec<u8>, Info), String> {
    let o = run(v, data, s);
    match o.px {
        Ok(p) => {
            let i = o.info.ok_or_else(|| format!("{:?}: decode is Ok but info() is None", v))?;
            if p.len() != i.len() {
                return Err(format!("{:?}: buffer has {} bytes, info() says {}x{}x{}", v, p.len(), i.w, i.h, i.pb));
            }
            Ok((p, i))
        }
        Err(e) => Err(format!("{:?}: valid stream not decoded: {}", v, describe(&e))),
    }
}

pub fn describe(e: &Fail) -> String {
    match e {
        Fail::Format(m) => format!("Format({})", m),
        o => o.kind(),
    }
}

/// First difference of two buffers, for messages.
pub fn diff(a: &[u8], b: &[u8], w: usize, pb: usize) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => {
            let p = i / pb.max(1);
            format!("{} bytes differ, first at x={} y={} channel {}: {} vs {}", n, p % w.max(1), p / w.max(1), i % pb.max(1), a[i], b[i])
        }
        None => "equal".into(),
    }
}
