//! An independent JPEG encoder (ITU-T T.81), written for the checks: it turns known
//! coefficients / samples into a stream, with every entropy-coding freedom exposed
//! (Huffman tables, restart intervals, interleaving, progression, table placement).
use crate::tape::Bulk;

/// zig-zag position -> natural (row-major) position, Figure A.6
#[rustfmt::skip]
pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21,
    28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54,
    47, 55, 62, 63,
];

pub fn cdiv(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: u8,
    pub v: u8,
    pub tq: u8,
    /// natural order
    pub q: [u16; 64],
    /// padded size in blocks (whole MCUs)
    pub bw: usize,
    pub bh: usize,
    /// size in samples
    pub cw: usize,
    pub ch: usize,
    /// natural-order quantised coefficients, bw*bh blocks
    pub blocks: Vec<[i16; 64]>,
}

impl Comp {
    pub fn nbw(&self) -> usize {
        cdiv(self.cw, 8)
    }
    pub fn nbh(&self) -> usize {
        cdiv(self.ch, 8)
    }
}

#[derive(Clone, Debug)]
pub struct Image {
    pub w: usize,
    pub h: usize,
    pub hmax: u8,
    pub vmax: u8,
    pub mx: usize,
    pub my: usize,
    pub comps: Vec<Comp>,
}

impl Image {
    /// Frame geometry per A.1.1; blocks are zero.
    pub fn new(w: usize, h: usize, comps: &[(u8, u8, u8, u8)]) -> Image {
        let hmax = comps.iter().map(|c| c.1).max().unwrap();
        let vmax = comps.iter().map(|c| c.2).max().unwrap();
        let mx = cdiv(w, 8 * hmax as usize);
        let my = cdiv(h, 8 * vmax as usize);
        let comps = comps
            .iter()
            .map(|&(id, ch, cv, tq)| {
                let bw = mx * ch as usize;
                let bh = my * cv as usize;
                Comp {
                    id,
                    h: ch,
                    v: cv,
                    tq,
                    q: [1; 64],
                    bw,
                    bh,
                    cw: cdiv(w * ch as usize, hmax as usize),
                    ch: cdiv(h * cv as usize, vmax as usize),
                    blocks: vec![[0; 64]; bw * bh],
                }
            })
            .collect();
        Image { w, h, hmax, vmax, mx, my, comps }
    }
    /// The single component `i` as a grayscale image of its own.
    pub fn gray_of(&self, i: usize) -> Image {
        let c = &self.comps[i];
        let mut g = Image::new(c.cw, c.ch, &[(1, 1, 1, 0)]);
        g.comps[0].q = c.q;
        for y in 0..g.comps[0].bh {
            for x in 0..g.comps[0].bw {
                let bw = g.comps[0].bw;
                g.comps[0].blocks[y * bw + x] = c.blocks[y * c.bw + x];
            }
        }
        g
    }
}

// ---------------------------------------------------------------- Huffman tables

#[derive(Clone, PartialEq)]
pub struct Table {
    pub counts: [u8; 16],
    pub vals: Vec<u8>,
    pub code: Vec<(u16, u8)>, // by symbol; len 0 = absent
}

impl Table {
    pub fn new(counts: [u8; 16], vals: Vec<u8>) -> Table {
        let mut code = vec![(0u16, 0u8); 256];
        let mut c = 0u32;
        let mut k = 0;
        for (i, &n) in counts.iter().enumerate() {
            for _ in 0..n {
                code[vals[k] as usize] = (c as u16, i as u8 + 1);
                c += 1;
                k += 1;
            }
            c <<= 1;
        }
        Table { counts, vals, code }
    }
    pub fn covers(&self, freq: &[u32; 256]) -> bool {
        (0..256).all(|s| freq[s] == 0 || self.code[s].1 > 0)
    }
    fn from_lengths(len: &[(u8, u8)]) -> Table {
        // (symbol, length); stable order by length
        let mut v = len.to_vec();
        v.sort_by_key(|x| x.1);
        let mut counts = [0u8; 16];
        for &(_, l) in &v {
            counts[l as usize - 1] += 1;
        }
        Table::new(counts, v.iter().map(|x| x.0).collect())
    }
}

#[rustfmt::skip]
pub fn std_table(class: u8, chroma: bool) -> Table {
    match (class, chroma) {
        (0, false) => Table::new([0,1,5,1,1,1,1,1,1,0,0,0,0,0,0,0], (0..12).collect()),
        (0, true) => Table::new([0,3,1,1,1,1,1,1,1,1,1,0,0,0,0,0], (0..12).collect()),
        (_, false) => Table::new([0,2,1,3,3,2,4,3,5,5,4,4,0,0,1,0x7d], vec![
            0x01,0x02,0x03,0x00,0x04,0x11,0x05,0x12,0x21,0x31,0x41,0x06,0x13,0x51,0x61,0x07,0x22,0x71,0x14,0x32,0x81,0x91,0xa1,0x08,
            0x23,0x42,0xb1,0xc1,0x15,0x52,0xd1,0xf0,0x24,0x33,0x62,0x72,0x82,0x09,0x0a,0x16,0x17,0x18,0x19,0x1a,0x25,0x26,0x27,0x28,
            0x29,0x2a,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x53,0x54,0x55,0x56,0x57,0x58,0x59,
            0x5a,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x83,0x84,0x85,0x86,0x87,0x88,0x89,
            0x8a,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xb2,0xb3,0xb4,0xb5,0xb6,
            0xb7,0xb8,0xb9,0xba,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xe1,0xe2,
            0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa]),
        (_, true) => Table::new([0,2,1,2,4,4,3,4,7,5,4,4,0,1,2,0x77], vec![
            0x00,0x01,0x02,0x03,0x11,0x04,0x05,0x21,0x31,0x06,0x12,0x41,0x51,0x07,0x61,0x71,0x13,0x22,0x32,0x81,0x08,0x14,0x42,0x91,
            0xa1,0xb1,0xc1,0x09,0x23,0x33,0x52,0xf0,0x15,0x62,0x72,0xd1,0x0a,0x16,0x24,0x34,0xe1,0x25,0xf1,0x17,0x18,0x19,0x1a,0x26,
            0x27,0x28,0x29,0x2a,0x35,0x36,0x37,0x38,0x39,0x3a,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x53,0x54,0x55,0x56,0x57,0x58,
            0x59,0x5a,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x82,0x83,0x84,0x85,0x86,0x87,
            0x88,0x89,0x8a,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xb2,0xb3,0xb4,
            0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,
            0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa]),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Std,
    Optimal,
    Random,
    /// standard tables, except random ones where the bit class*2+slot is set
    Mix(u8),
}

/// A legal table (C.2: prefix code, lengths <= 16, all-ones code unused) that has every symbol of `freq`.
pub fn make_table(class: u8, chroma: bool, freq: &[u32; 256], style: Style, b: &mut Bulk) -> Table {
    match style {
        Style::Mix(_) => unreachable!(),
        Style::Std => {
            let t = std_table(class, chroma);
            if t.covers(freq) {
                t
            } else {
                make_table(class, chroma, freq, Style::Optimal, b)
            }
        }
        Style::Optimal => {
            let mut f: Vec<(u64, Vec<usize>)> =
                (0..256).filter(|&s| freq[s] > 0).map(|s| (freq[s] as u64, vec![s])).collect();
            if f.is_empty() {
                f.push((1, vec![0]));
            }
            let syms: Vec<usize> = f.iter().map(|x| x.1[0]).collect();
            f.push((0, vec![256])); // reserves the all-ones code
            let mut len = vec![0u32; 257];
            while f.len() > 1 {
                f.sort_by(|a, b| b.0.cmp(&a.0));
                let a = f.pop().unwrap();
                let c = f.pop().unwrap();
                let mut v = a.1;
                v.extend(c.1);
                for &s in &v {
                    len[s] += 1;
                }
                f.push((a.0 + c.0, v));
            }
            // K.2 length limiting, done on the histogram
            let mut bits = vec![0i32; 300];
            for s in 0..257 {
                if len[s] > 0 {
                    bits[len[s] as usize] += 1;
                }
            }
            let mut i = 299;
            while i > 16 {
                while bits[i] > 0 {
                    let mut j = i - 2;
                    while bits[j] == 0 {
                        j -= 1;
                    }
                    bits[i] -= 2;
                    bits[i - 1] += 1;
                    bits[j + 1] += 2;
                    bits[j] -= 1;
                }
                i -= 1;
            }
            while bits[i] == 0 {
                i -= 1;
            }
            bits[i] -= 1; // drop the reserved point
            let mut order = syms;
            order.sort_by_key(|&s| (len[s], s));
            let mut counts = [0u8; 16];
            for l in 1..=16 {
                counts[l - 1] = bits[l] as u8;
            }
            Table::new(counts, order.iter().map(|&s| s as u8).collect())
        }
        Style::Random => {
            // used symbols plus some unused ones, random order, random lengths made feasible
            let mut syms: Vec<u8> = (0..256).filter(|&s| freq[s] > 0).map(|s| s as u8).collect();
            let extra = if b.chance(1, 3) { 0 } else if b.chance(1, 8) { 255 } else { b.below(24) };
            for _ in 0..extra {
                let s = if class == 0 { b.below(17) as u8 } else { b.byte() };
                if !syms.contains(&s) {
                    syms.push(s);
                }
            }
            if syms.is_empty() {
                syms.push(b.below(12) as u8);
            }
            for i in (1..syms.len()).rev() {
                syms.swap(i, b.below(i + 1));
            }
            let bias = b.below(4);
            let mut len: Vec<u8> = syms
                .iter()
                .map(|_| match bias {
                    0 => b.range(1, 16) as u8,
                    1 => b.range(8, 16) as u8,
                    2 => b.range(1, 8) as u8,
                    _ => b.range(6, 11) as u8,
                })
                .collect();
            // Kraft with the all-ones 16-bit code left free
            let kraft = |len: &[u8]| len.iter().map(|&l| 1u64 << (16 - l)).sum::<u64>();
            while kraft(&len) > 65535 {
                let mut i = b.below(len.len());
                while len[i] == 16 {
                    i = (i + 1) % len.len();
                }
                // lengthen a short one more often
                let j = b.below(len.len());
                if len[j] < len[i] {
                    i = j;
                }
                len[i] += 1;
            }
            // sometimes tighten into a (nearly) complete code
            if b.chance(1, 2) {
                for _ in 0..len.len() * 2 {
                    let i = b.below(len.len());
                    if len[i] > 1 {
                        len[i] -= 1;
                        if kraft(&len) > 65535 {
                            len[i] += 1;
                        }
                    }
                }
            }
            Table::from_lengths(&syms.iter().cloned().zip(len).collect::<Vec<_>>())
        }
    }
}

// ---------------------------------------------------------------- streams

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tag {
    Soi,
    App(u8),
    Com,
    Dqt,
    Dht,
    Dri,
    Sof,
    Sos,
    Ecs,
    Eoi,
    Other,
}

#[derive(Clone, Debug)]
pub struct Stream {
    pub segs: Vec<(Tag, Vec<u8>)>,
}

impl Stream {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for s in &self.segs {
            v.extend_from_slice(&s.1);
        }
        v
    }
    /// Insert right after SOI, keeping relative order of successive insertions.
    pub fn insert_app(&mut self, at: usize, n: u8, payload: &[u8]) {
        self.segs.insert(at, (Tag::App(n), seg(0xE0 + n, payload)));
    }
    pub fn find(&self, t: Tag) -> Option<usize> {
        self.segs.iter().position(|s| s.0 == t)
    }
    pub fn without(&self, t: Tag) -> Stream {
        Stream { segs: self.segs.iter().filter(|s| s.0 != t).cloned().collect() }
    }
}

pub fn seg(marker: u8, payload: &[u8]) -> Vec<u8> {
    assert!(payload.len() + 2 <= 65535);
    let mut v = vec![0xFF, marker];
    v.extend_from_slice(&((payload.len() + 2) as u16).to_be_bytes());
    v.extend_from_slice(payload);
    v
}

pub struct BitW {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitW {
    pub fn new() -> Self {
        BitW { out: vec![], acc: 0, n: 0 }
    }
    pub fn put(&mut self, v: u32, n: u32) {
        if n == 0 {
            return;
        }
        assert!(n <= 32);
        self.acc = (self.acc << n) | (v as u64 & ((1u64 << n) - 1));
        self.n += n;
        while self.n >= 8 {
            let b = (self.acc >> (self.n - 8)) as u8;
            self.out.push(b);
            if b == 0xFF {
                self.out.push(0);
            }
            self.n -= 8;
            self.acc &= (1u64 << self.n) - 1;
        }
    }
    /// pad with 1-bits to a byte boundary (F.1.2.3)
    pub fn flush(&mut self) {
        if self.n > 0 {
            let k = 8 - self.n;
            self.put((1u32 << k) - 1, k);
        }
    }
}

#[derive(Clone, Debug)]
pub struct ScanPlan {
    pub comps: Vec<usize>,
    pub ss: u8,
    pub se: u8,
    pub ah: u8,
    pub al: u8,
    /// restart interval in MCUs, 0 = off
    pub ri: usize,
    pub dc: Vec<u8>,
    pub ac: Vec<u8>,
    pub style: Style,
    pub seed: u64,
    /// cap on EOB runs in progressive AC scans
    pub maxeob: u32,
    /// one DHT segment per table
    pub split_dht: bool,
    /// a still-valid earlier table may be reused without redefinition
    pub reuse: bool,
}

#[derive(Clone, Debug)]
pub struct Plan {
    /// marker code low byte, 0xC0..0xC2
    pub sof: u8,
    pub scans: Vec<ScanPlan>,
    /// all quantisation tables before SOF rather than before the scan that uses them
    pub dqt_early: bool,
    pub dqt16: bool,
    pub split_dqt: bool,
    /// Huffman tables of the first scan before the frame header
    pub dht_early: bool,
    /// write the DRI segment before SOF for the first scan
    pub dri_early: bool,
    pub eoi: bool,
    /// leave out DHT segments entirely (motion-JPEG)
    pub no_dht: bool,
}

#[derive(Clone, Copy)]
enum Item {
    Sym(u8, u8, u8), // class, scan component, symbol
    Bits(u32, u8),
    Rst,
}

pub fn category(v: i32) -> u8 {
    (32 - v.unsigned_abs().leading_zeros()) as u8
}

/// F.1.2.1: low-order bits of v (v>0) or of v-1 (v<0)
pub fn ext_bits(v: i32, cat: u8) -> u32 {
    let x = if v < 0 { v - 1 } else { v };
    (x as u32) & ((1u64 << cat) as u32).wrapping_sub(1)
}

pub fn dqt_payload(slot: u8, q: &[u16; 64], p16: bool) -> Vec<u8> {
    let p16 = p16 || q.iter().any(|&v| v > 255);
    let mut v = vec![((p16 as u8) << 4) | slot];
    for &n in ZZ.iter() {
        if p16 {
            v.extend_from_slice(&q[n].to_be_bytes());
        } else {
            v.push(q[n] as u8);
        }
    }
    v
}

pub fn dht_payload(class: u8, slot: u8, t: &Table) -> Vec<u8> {
    let mut v = vec![(class << 4) | slot];
    v.extend_from_slice(&t.counts);
    v.extend_from_slice(&t.vals);
    v
}

pub fn sof_payload(prec: u8, w: usize, h: usize, comps: &[(u8, u8, u8, u8)]) -> Vec<u8> {
    let mut v = vec![prec];
    v.extend_from_slice(&(h as u16).to_be_bytes());
    v.extend_from_slice(&(w as u16).to_be_bytes());
    v.push(comps.len() as u8);
    for c in comps {
        v.extend_from_slice(&[c.0, (c.1 << 4) | c.2, c.3]);
    }
    v
}

pub fn sos_payload(comps: &[(u8, u8, u8)], ss: u8, se: u8, ah: u8, al: u8) -> Vec<u8> {
    let mut v = vec![comps.len() as u8];
    for c in comps {
        v.extend_from_slice(&[c.0, (c.1 << 4) | c.2]);
    }
    v.extend_from_slice(&[ss, se, (ah << 4) | al]);
    v
}

/// Symbols of one scan, in coding order.
fn scan_items(img: &Image, sp: &ScanPlan, progressive: bool) -> Vec<Item> {
    let mut items = Vec::new();
    let inter = sp.comps.len() > 1;
    let (nx, ny) = if inter {
        (img.mx, img.my)
    } else {
        let c = &img.comps[sp.comps[0]];
        (c.nbw(), c.nbh())
    };
    let mut pred = vec![0i32; sp.comps.len()];
    let mut eob = EobRun { run: 0, bits: vec![], max: sp.maxeob.clamp(1, 32767) };
    let mut left = sp.ri;
    for my in 0..ny {
        for mx in 0..nx {
            if sp.ri > 0 {
                if left == 0 {
                    eob.flush(&mut items);
                    items.push(Item::Rst);
                    pred.iter_mut().for_each(|p| *p = 0);
                    left = sp.ri;
                }
                left -= 1;
            }
            for (k, &ci) in sp.comps.iter().enumerate() {
                let c = &img.comps[ci];
                let (ch, cv) = if inter { (c.h as usize, c.v as usize) } else { (1, 1) };
                for v in 0..cv {
                    for h in 0..ch {
                        let b = &c.blocks[(my * cv + v) * c.bw + mx * ch + h];
                        if !progressive {
                            sequential_block(b, k as u8, &mut pred[k], &mut items);
                        } else if sp.ss == 0 {
                            if sp.ah == 0 {
                                let v = (b[0] as i32) >> sp.al;
                                let d = v - pred[k];
                                pred[k] = v;
                                let cat = category(d);
                                items.push(Item::Sym(0, k as u8, cat));
                                items.push(Item::Bits(ext_bits(d, cat), cat));
                            } else {
                                items.push(Item::Bits(((b[0] as i32) >> sp.al) as u32 & 1, 1));
                            }
                        } else if sp.ah == 0 {
                            ac_first(b, sp, &mut eob, &mut items);
                        } else {
                            ac_refine(b, sp, &mut eob, &mut items);
                        }
                    }
                }
            }
        }
    }
    eob.flush(&mut items);
    items
}

fn sequential_block(b: &[i16; 64], k: u8, pred: &mut i32, items: &mut Vec<Item>) {
    let d = b[0] as i32 - *pred;
    *pred = b[0] as i32;
    let cat = category(d);
    items.push(Item::Sym(0, k, cat));
    items.push(Item::Bits(ext_bits(d, cat), cat));
    let mut r = 0u8;
    for z in 1..64 {
        let v = b[ZZ[z]] as i32;
        if v == 0 {
            r += 1;
            continue;
        }
        while r > 15 {
            items.push(Item::Sym(1, k, 0xF0));
            r -= 16;
        }
        let cat = category(v);
        items.push(Item::Sym(1, k, (r << 4) | cat));
        items.push(Item::Bits(ext_bits(v, cat), cat));
        r = 0;
    }
    if r > 0 {
        items.push(Item::Sym(1, k, 0));
    }
}

struct EobRun {
    run: u32,
    bits: Vec<u8>,
    max: u32,
}

impl EobRun {
    fn flush(&mut self, items: &mut Vec<Item>) {
        if self.run == 0 {
            return;
        }
        let n = 31 - self.run.leading_zeros();
        items.push(Item::Sym(1, 0, (n as u8) << 4));
        items.push(Item::Bits(self.run & ((1 << n) - 1), n as u8));
        self.run = 0;
        for &b in &self.bits {
            items.push(Item::Bits(b as u32, 1));
        }
        self.bits.clear();
    }
    fn add(&mut self, items: &mut Vec<Item>) {
        self.run += 1;
        if self.run >= self.max {
            self.flush(items);
        }
    }
}

fn ac_first(b: &[i16; 64], sp: &ScanPlan, eob: &mut EobRun, items: &mut Vec<Item>) {
    let mut r = 0u8;
    for z in sp.ss..=sp.se {
        let c = b[ZZ[z as usize]] as i32;
        let m = c.abs() >> sp.al;
        if m == 0 {
            r += 1;
            continue;
        }
        eob.flush(items);
        while r > 15 {
            items.push(Item::Sym(1, 0, 0xF0));
            r -= 16;
        }
        let v = if c < 0 { -m } else { m };
        let cat = category(v);
        items.push(Item::Sym(1, 0, (r << 4) | cat));
        items.push(Item::Bits(ext_bits(v, cat), cat));
        r = 0;
    }
    if r > 0 {
        eob.add(items);
    }
}

fn ac_refine(b: &[i16; 64], sp: &ScanPlan, eob: &mut EobRun, items: &mut Vec<Item>) {
    let mag = |z: u8| ((b[ZZ[z as usize]] as i32).abs()) >> sp.al;
    let last_new = (sp.ss..=sp.se).filter(|&z| mag(z) == 1).last();
    let mut r = 0u8;
    let mut br: Vec<u8> = vec![];
    for z in sp.ss..=sp.se {
        let m = mag(z);
        if m == 0 {
            r += 1;
            continue;
        }
        while r > 15 && last_new.map_or(false, |l| z <= l) {
            eob.flush(items);
            items.push(Item::Sym(1, 0, 0xF0));
            r -= 16;
            for &x in &br {
                items.push(Item::Bits(x as u32, 1));
            }
            br.clear();
        }
        if m > 1 {
            br.push((m & 1) as u8);
            continue;
        }
        eob.flush(items);
        items.push(Item::Sym(1, 0, (r << 4) | 1));
        items.push(Item::Bits((b[ZZ[z as usize]] > 0) as u32, 1));
        for &x in &br {
            items.push(Item::Bits(x as u32, 1));
        }
        br.clear();
        r = 0;
    }
    if r > 0 || !br.is_empty() {
        eob.run += 1;
        eob.bits.extend(br);
        if eob.run >= eob.max || eob.bits.len() > 900 {
            eob.flush(items);
        }
    }
}

/// Chosen tables and entropy-coded bytes of one scan.
fn code_scan(
    items: &[Item],
    sp_dc: &[u8],
    sp_ac: &[u8],
    style: Style,
    seed: u64,
    reuse: bool,
    cur: &mut [[Option<Table>; 4]; 2],
) -> (Vec<(u8, u8, Table)>, Vec<u8>) {
    let mut freq = vec![[[0u32; 256]; 4]; 2];
    for it in items {
        if let Item::Sym(cl, k, s) = *it {
            let slot = if cl == 0 { sp_dc[k as usize] } else { sp_ac[k as usize] };
            freq[cl as usize][slot as usize][s as usize] += 1;
        }
    }
    let mut b = BulkSeed::make(seed);
    let mut defs = vec![];
    for cl in 0..2usize {
        for slot in 0..4usize {
            let f = &freq[cl][slot];
            if f.iter().all(|&x| x == 0) {
                continue;
            }
            if reuse {
                if let Some(t) = &cur[cl][slot] {
                    if t.covers(f) {
                        continue;
                    }
                }
            }
            let style = match style {
                Style::Mix(m) => {
                    if m >> (cl * 2 + (slot & 1)) & 1 == 1 {
                        Style::Random
                    } else {
                        Style::Std
                    }
                }
                s => s,
            };
            let t = make_table(cl as u8, slot == 1, f, style, &mut b);
            defs.push((cl as u8, slot as u8, t.clone()));
            cur[cl][slot] = Some(t);
        }
    }
    let mut w = BitW::new();
    let mut rst = 0u8;
    for it in items {
        match *it {
            Item::Sym(cl, k, s) => {
                let slot = if cl == 0 { sp_dc[k as usize] } else { sp_ac[k as usize] };
                let (c, l) = cur[cl as usize][slot as usize].as_ref().unwrap().code[s as usize];
                assert!(l > 0);
                w.put(c as u32, l as u32);
            }
            Item::Bits(v, n) => w.put(v, n as u32),
            Item::Rst => {
                w.flush();
                w.out.extend_from_slice(&[0xFF, 0xD0 + rst]);
                rst = (rst + 1) & 7;
            }
        }
    }
    w.flush();
    (defs, w.out)
}

pub struct BulkSeed;
impl BulkSeed {
    pub fn make(seed: u64) -> Bulk {
        let d = [(seed ^ (seed >> 32)) as u32];
        let mut t = crate::tape::Tape::new(&d);
        t.bulk()
    }
}

fn push_dht(segs: &mut Vec<(Tag, Vec<u8>)>, defs: &[(u8, u8, Table)], split: bool) {
    if defs.is_empty() {
        return;
    }
    if split {
        for d in defs {
            segs.push((Tag::Dht, seg(0xC4, &dht_payload(d.0, d.1, &d.2))));
        }
    } else {
        let mut p = vec![];
        for d in defs {
            p.extend(dht_payload(d.0, d.1, &d.2));
        }
        segs.push((Tag::Dht, seg(0xC4, &p)));
    }
}

/// Encode a DCT image according to the plan.
pub fn encode(img: &Image, plan: &Plan) -> Stream {
    let progressive = plan.sof == 0xC2;
    let mut segs: Vec<(Tag, Vec<u8>)> = vec![(Tag::Soi, vec![0xFF, 0xD8])];
    let mut curq: [Option<[u16; 64]>; 4] = [None; 4];
    let put_q = |segs: &mut Vec<(Tag, Vec<u8>)>, defs: &[(u8, [u16; 64])]| {
        if plan.split_dqt {
            for d in defs {
                segs.push((Tag::Dqt, seg(0xDB, &dqt_payload(d.0, &d.1, plan.dqt16))));
            }
        } else if !defs.is_empty() {
            let mut p = vec![];
            for d in defs {
                p.extend(dqt_payload(d.0, &d.1, plan.dqt16));
            }
            segs.push((Tag::Dqt, seg(0xDB, &p)));
        }
    };
    if plan.dqt_early {
        let mut defs = vec![];
        let rest: Vec<usize> = (0..img.comps.len()).collect();
        for comps in plan.scans.iter().map(|sp| &sp.comps).chain([&rest]) {
            for &ci in comps {
                let c = &img.comps[ci];
                if curq[c.tq as usize].is_none() {
                    curq[c.tq as usize] = Some(c.q);
                    defs.push((c.tq, c.q));
                }
            }
        }
        put_q(&mut segs, &defs);
    }
    let comps: Vec<_> = img.comps.iter().map(|c| (c.id, c.h, c.v, c.tq)).collect();
    let sofseg = (Tag::Sof, seg(plan.sof, &sof_payload(8, img.w, img.h, &comps)));
    let mut sof = Some(sofseg);
    let mut cur: [[Option<Table>; 4]; 2] = Default::default();
    let mut cur_ri = 0usize;
    for (i, sp) in plan.scans.iter().enumerate() {
        let items = scan_items(img, sp, progressive);
        let (defs, ecs) = code_scan(&items, &sp.dc, &sp.ac, sp.style, sp.seed, sp.reuse, &mut cur);
        let defs = if plan.no_dht { vec![] } else { defs };
        let mut dqt = vec![];
        for &ci in &sp.comps {
            let c = &img.comps[ci];
            if curq[c.tq as usize] != Some(c.q) {
                curq[c.tq as usize] = Some(c.q);
                dqt.push((c.tq, c.q));
            }
        }
        let dri = if sp.ri != cur_ri {
            cur_ri = sp.ri;
            Some((Tag::Dri, seg(0xDD, &(sp.ri as u16).to_be_bytes())))
        } else {
            None
        };
        if i == 0 {
            if plan.dht_early {
                push_dht(&mut segs, &defs, sp.split_dht);
            }
            if plan.dri_early {
                segs.extend(dri.clone());
            }
            segs.push(sof.take().unwrap());
            put_q(&mut segs, &dqt);
            if !plan.dht_early {
                push_dht(&mut segs, &defs, sp.split_dht);
            }
            if !plan.dri_early {
                segs.extend(dri);
            }
        } else {
            put_q(&mut segs, &dqt);
            push_dht(&mut segs, &defs, sp.split_dht);
            segs.extend(dri);
        }
        let sc: Vec<_> =
            sp.comps.iter().enumerate().map(|(k, &ci)| (img.comps[ci].id, sp.dc[k], sp.ac[k])).collect();
        segs.push((Tag::Sos, seg(0xDA, &sos_payload(&sc, sp.ss, sp.se, sp.ah, sp.al))));
        segs.push((Tag::Ecs, ecs));
    }
    segs.extend(sof);
    if plan.eoi {
        segs.push((Tag::Eoi, vec![0xFF, 0xD9]));
    }
    Stream { segs }
}

/// The plainest encoding: SOF1, one scan per component group, standard-ish optimal tables.
pub fn plain_plan(img: &Image) -> Plan {
    let n = img.comps.len();
    let blocks: usize = img.comps.iter().map(|c| c.h as usize * c.v as usize).sum();
    let groups: Vec<Vec<usize>> =
        if n > 1 && blocks <= 10 { vec![(0..n).collect()] } else { (0..n).map(|i| vec![i]).collect() };
    let early = {
        // tables can all go first unless a slot is redefined between scans
        let mut cur: [Option<[u16; 64]>; 4] = [None; 4];
        let mut ok = true;
        for c in &img.comps {
            let s = &mut cur[c.tq as usize];
            ok &= s.is_none() || *s == Some(c.q);
            *s = Some(c.q);
        }
        ok
    };
    Plan {
        sof: 0xC1,
        scans: groups
            .into_iter()
            .map(|g| ScanPlan {
                dc: g.iter().map(|_| 0).collect(),
                ac: g.iter().map(|_| 0).collect(),
                comps: g,
                ss: 0,
                se: 63,
                ah: 0,
                al: 0,
                ri: 0,
                style: Style::Optimal,
                seed: 0,
                maxeob: 32767,
                split_dht: false,
                reuse: false,
            })
            .collect(),
        dqt_early: early,
        dqt16: false,
        split_dqt: false,
        dht_early: false,
        dri_early: false,
        eoi: true,
        no_dht: false,
    }
}

pub fn encode_plain(img: &Image) -> Vec<u8> {
    encode(img, &plain_plan(img)).bytes()
}

// ---------------------------------------------------------------- lossless

#[derive(Clone, Debug)]
pub struct LScan {
    pub comps: Vec<usize>,
    pub pred: u8,
    pub pt: u8,
    /// restart every n lines, 0 = off
    pub ri_lines: usize,
    pub dc: Vec<u8>,
    pub style: Style,
    pub seed: u64,
}

#[derive(Clone, Debug)]
pub struct LImage {
    pub w: usize,
    pub h: usize,
    pub prec: u8,
    pub ids: Vec<u8>,
    /// sampling factors written in the frame header (equal for all components)
    pub hv: (u8, u8),
    pub planes: Vec<Vec<u16>>,
}

pub fn encode_lossless(img: &LImage, scans: &[LScan]) -> Stream {
    let mut segs: Vec<(Tag, Vec<u8>)> = vec![(Tag::Soi, vec![0xFF, 0xD8])];
    let comps: Vec<_> = img.ids.iter().map(|&id| (id, img.hv.0, img.hv.1, 0)).collect();
    segs.push((Tag::Sof, seg(0xC3, &sof_payload(img.prec, img.w, img.h, &comps))));
    let mut cur: [[Option<Table>; 4]; 2] = Default::default();
    let mut cur_ri = 0;
    for sc in scans {
        let mut items = vec![];
        let w = img.w;
        for y in 0..img.h {
            if sc.ri_lines > 0 && y > 0 && y % sc.ri_lines == 0 {
                items.push(Item::Rst);
            }
            let first_line = y == 0 || (sc.ri_lines > 0 && y % sc.ri_lines == 0);
            for x in 0..w {
                for (k, &ci) in sc.comps.iter().enumerate() {
                    let p = &img.planes[ci];
                    let at = |x: usize, y: usize| (p[y * w + x] >> sc.pt) as i32;
                    let pred = if first_line {
                        if x == 0 {
                            1 << (img.prec - sc.pt - 1)
                        } else {
                            at(x - 1, y)
                        }
                    } else if x == 0 {
                        at(x, y - 1)
                    } else {
                        let (ra, rb, rc) = (at(x - 1, y), at(x, y - 1), at(x - 1, y - 1));
                        match sc.pred {
                            1 => ra,
                            2 => rb,
                            3 => rc,
                            4 => ra + rb - rc,
                            5 => ra + ((rb - rc) >> 1),
                            6 => rb + ((ra - rc) >> 1),
                            7 => (ra + rb) >> 1,
                            _ => unreachable!(),
                        }
                    };
                    // H.1.2.1: difference modulo 2^16, in -32767..=32768
                    let mut d = (at(x, y) - pred) & 0xFFFF;
                    if d > 32768 {
                        d -= 65536;
                    }
                    let cat = category(d);
                    items.push(Item::Sym(0, k as u8, cat));
                    if cat < 16 {
                        items.push(Item::Bits(ext_bits(d, cat), cat));
                    }
                }
            }
        }
        let zero = vec![0u8; sc.dc.len()];
        let (defs, ecs) = code_scan(&items, &sc.dc, &zero, sc.style, sc.seed, false, &mut cur);
        push_dht(&mut segs, &defs, false);
        let ri = sc.ri_lines * w;
        if ri != cur_ri {
            cur_ri = ri;
            segs.push((Tag::Dri, seg(0xDD, &(ri as u16).to_be_bytes())));
        }
        let scs: Vec<_> = sc.comps.iter().enumerate().map(|(k, &ci)| (img.ids[ci], sc.dc[k], 0)).collect();
        segs.push((Tag::Sos, seg(0xDA, &sos_payload(&scs, sc.pred, 0, 0, sc.pt))));
        segs.push((Tag::Ecs, ecs));
    }
    segs.push((Tag::Eoi, vec![0xFF, 0xD9]));
    Stream { segs }
}
