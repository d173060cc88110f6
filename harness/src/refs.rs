//! Reference models: real-valued DCTs, the documented fixed-point inverse DCT and colour
//! conversion (portable build), upsampling filters, colour equations, scale selection.
use crate::enc::{cdiv, Comp};
use std::sync::OnceLock;

fn basis(n: usize) -> &'static [f64] {
    // orthonormal: b[u*n + x]
    static B: OnceLock<Vec<Vec<f64>>> = OnceLock::new();
    let all = B.get_or_init(|| {
        (0..=8)
            .map(|n: usize| {
                let mut v = vec![0.0; n * n];
                for u in 0..n {
                    for x in 0..n {
                        let c = if u == 0 { (1.0 / n as f64).sqrt() } else { (2.0 / n as f64).sqrt() };
                        v[u * n + x] =
                            c * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / (2 * n) as f64).cos();
                    }
                }
                v
            })
            .collect()
    });
    &all[n]
}

pub fn fdct8(s: &[f64; 64]) -> [f64; 64] {
    let b = basis(8);
    let mut t = [0f64; 64];
    for y in 0..8 {
        for u in 0..8 {
            t[y * 8 + u] = (0..8).map(|x| s[y * 8 + x] * b[u * 8 + x]).sum();
        }
    }
    let mut o = [0f64; 64];
    for u in 0..8 {
        for v in 0..8 {
            o[v * 8 + u] = (0..8).map(|y| t[y * 8 + u] * b[v * 8 + y]).sum();
        }
    }
    o
}

/// Real-valued N-point reconstruction of the N x N low frequencies (+128, unclamped).
pub fn idct_f64(c: &[i16; 64], q: &[u16; 64], n: usize, out: &mut [f64]) {
    let b = basis(n);
    let mut t = [0f64; 64];
    let mut d = [0f64; 64];
    for v in 0..n {
        for u in 0..n {
            d[v * n + u] = c[v * 8 + u] as f64 * q[v * 8 + u] as f64;
        }
    }
    for v in 0..n {
        for x in 0..n {
            t[v * n + x] = (0..n).map(|u| d[v * n + u] * b[u * n + x]).sum();
        }
    }
    for y in 0..n {
        for x in 0..n {
            let s: f64 = (0..n).map(|v| t[v * n + x] * b[v * n + y]).sum();
            out[y * n + x] = s * n as f64 / 8.0 + 128.0;
        }
    }
}

// ------------------------------------------------------------ exact fixed point (stb_image)

type Wi = std::num::Wrapping<i32>;
fn wr(x: i32) -> Wi {
    std::num::Wrapping(x)
}
fn f2f(x: f32) -> Wi {
    wr((x * 4096.0 + 0.5) as i32)
}
fn clamp8(x: Wi) -> u8 {
    x.0.clamp(0, 255) as u8
}

/// STBI__IDCT_1D: returns (x0..x3, t0..t3)
fn idct1(s: [Wi; 8]) -> ([Wi; 4], [Wi; 4]) {
    let p1 = (s[2] + s[6]) * f2f(0.5411961);
    let t2 = p1 + s[6] * f2f(-1.847759065);
    let t3 = p1 + s[2] * f2f(0.765366865);
    let t0 = (s[0] + s[4]) << 12;
    let t1 = (s[0] - s[4]) << 12;
    let x = [t0 + t3, t1 + t2, t1 - t2, t0 - t3];
    let (mut a0, mut a1, mut a2, mut a3) = (s[7], s[5], s[3], s[1]);
    let p3 = a0 + a2;
    let p4 = a1 + a3;
    let p1 = a0 + a3;
    let p2 = a1 + a2;
    let p5 = (p3 + p4) * f2f(1.175875602);
    a0 = a0 * f2f(0.298631336);
    a1 = a1 * f2f(2.053119869);
    a2 = a2 * f2f(3.072711026);
    a3 = a3 * f2f(1.501321110);
    let p1 = p5 + p1 * f2f(-0.899976223);
    let p2 = p5 + p2 * f2f(-2.562915447);
    let p3 = p3 * f2f(-1.961570560);
    let p4 = p4 * f2f(-0.390180644);
    ([x[0], x[1], x[2], x[3]], [a0 + p1 + p3, a1 + p2 + p4, a2 + p2 + p3, a3 + p1 + p4])
}

pub fn idct_fixed(c: &[i16; 64], q: &[u16; 64], n: usize, out: &mut [u8]) {
    let d = |i: usize| wr(c[i] as i32) * wr(q[i] as i32);
    match n {
        8 => {
            let mut v = [wr(0); 64];
            for i in 0..8 {
                if (1..8).all(|k| c[i + 8 * k] == 0) {
                    for k in 0..8 {
                        v[i + 8 * k] = d(i) << 2;
                    }
                    continue;
                }
                let (x, t) = idct1([d(i), d(i + 8), d(i + 16), d(i + 24), d(i + 32), d(i + 40), d(i + 48), d(i + 56)]);
                for k in 0..4 {
                    let xx = x[k] + wr(512);
                    v[i + 8 * k] = (xx + t[3 - k]) >> 10;
                    v[i + 8 * (7 - k)] = (xx - t[3 - k]) >> 10;
                }
            }
            for y in 0..8 {
                let r = &v[y * 8..y * 8 + 8];
                let (x, t) = idct1([r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]]);
                for k in 0..4 {
                    let xx = x[k] + wr(65536 + (128 << 17));
                    out[y * 8 + k] = clamp8((xx + t[3 - k]) >> 17);
                    out[y * 8 + 7 - k] = clamp8((xx - t[3 - k]) >> 17);
                }
            }
        }
        4 => {
            let mut v = [wr(0); 16];
            let odd = |s1: Wi, s3: Wi| {
                let p1 = (s1 + s3) * f2f(0.5411961);
                (p1 + s3 * f2f(-1.847759065), p1 + s1 * f2f(0.765366865))
            };
            for i in 0..4 {
                let (s0, s1, s2, s3) = (d(i), d(i + 8), d(i + 16), d(i + 24));
                let (a, b) = odd(s1, s3);
                let t0 = (a + wr(512)) >> 10;
                let t2 = (b + wr(512)) >> 10;
                let x0 = (s0 + s2) << 2;
                let x2 = (s0 - s2) << 2;
                v[i] = x0 + t2;
                v[i + 12] = x0 - t2;
                v[i + 4] = x2 + t0;
                v[i + 8] = x2 - t0;
            }
            for y in 0..4 {
                let (s0, s1, s2, s3) = (v[y * 4], v[y * 4 + 1], v[y * 4 + 2], v[y * 4 + 3]);
                let (t0, t2) = odd(s1, s3);
                let k = wr(1 << 16) + wr(128 << 17);
                let x0 = ((s0 + s2) << 12) + k;
                let x2 = ((s0 - s2) << 12) + k;
                out[y * 4] = clamp8((x0 + t2) >> 17);
                out[y * 4 + 3] = clamp8((x0 - t2) >> 17);
                out[y * 4 + 1] = clamp8((x2 + t0) >> 17);
                out[y * 4 + 2] = clamp8((x2 - t0) >> 17);
            }
        }
        2 => {
            let (a, b, c2, e) = (d(0), d(1), d(8), d(9));
            let k = wr(4 + (128 << 3));
            out[0] = clamp8((a + c2 + b + e + k) >> 3);
            out[1] = clamp8((a + c2 - b - e + k) >> 3);
            out[2] = clamp8((a - c2 + b - e + k) >> 3);
            out[3] = clamp8((a - c2 - b + e + k) >> 3);
        }
        _ => {
            // round half up of s/8 + 128, in (wrapping) 32-bit arithmetic
            let s = d(0) + wr(128 * 8);
            out[0] = (s.0 / 8).clamp(0, 255) as u8;
            let _ = s;
        }
    }
}

/// Padded plane (bw*n x bh*n) of exact fixed-point samples.
pub fn plane_fixed(c: &Comp, n: usize) -> Vec<u8> {
    let stride = c.bw * n;
    let mut p = vec![0u8; stride * c.bh * n];
    let mut o = [0u8; 64];
    for by in 0..c.bh {
        for bx in 0..c.bw {
            idct_fixed(&c.blocks[by * c.bw + bx], &c.q, n, &mut o);
            for y in 0..n {
                for x in 0..n {
                    p[(by * n + y) * stride + bx * n + x] = o[y * n + x];
                }
            }
        }
    }
    p
}

pub fn plane_f64(c: &Comp, n: usize) -> Vec<f64> {
    let stride = c.bw * n;
    let mut p = vec![0f64; stride * c.bh * n];
    let mut o = [0f64; 64];
    for by in 0..c.bh {
        for bx in 0..c.bw {
            idct_f64(&c.blocks[by * c.bw + bx], &c.q, n, &mut o);
            for y in 0..n {
                for x in 0..n {
                    p[(by * n + y) * stride + bx * n + x] = o[y * n + x];
                }
            }
        }
    }
    p
}

// ------------------------------------------------------------ upsampling

/// Upsample one component plane (w x h samples valid, given stride) to ow x oh.
/// `quirk`: treat an axis of one output pixel as full resolution.
pub fn upsample(p: &[u8], w: usize, h: usize, stride: usize, rx: usize, ry: usize, ow: usize, oh: usize, quirk: bool) -> Vec<u8> {
    let (mut rx, mut ry) = (rx, ry);
    if quirk && ow == 1 {
        rx = 1;
    }
    if quirk && oh == 1 {
        ry = 1;
    }
    let at = |x: usize, y: usize| p[y * stride + x] as u32;
    let mut out = vec![0u8; ow * oh];
    for y in 0..oh {
        for x in 0..ow {
            let v = if rx <= 2 && ry <= 2 {
                let (xn, xf) = near_far(x, rx, w);
                let (yn, yf) = near_far(y, ry, h);
                let col = |x: usize| 3 * at(x, yn) + at(x, yf);
                match (rx, ry) {
                    (1, 1) => at(x, y),
                    (2, 1) => (3 * at(xn, y) + at(xf, y) + 2) >> 2,
                    (1, 2) => (col(x) + 2) >> 2,
                    _ => (3 * col(xn) + col(xf) + 8) >> 4,
                }
            } else {
                at(x / rx, y / ry)
            };
            out[y * ow + x] = v as u8;
        }
    }
    out
}

fn near_far(x: usize, r: usize, n: usize) -> (usize, usize) {
    if r == 1 {
        return (x, x);
    }
    let near = x / 2;
    let far = if x % 2 == 0 { near.saturating_sub(1) } else { (near + 1).min(n - 1) };
    (near, far)
}

// ------------------------------------------------------------ colour

/// The equations of JFIF / BT.601, real-valued.
pub fn ycc_real(y: u8, cb: u8, cr: u8) -> [f64; 3] {
    let (y, cb, cr) = (y as f64, cb as f64 - 128.0, cr as f64 - 128.0);
    [y + 1.402 * cr, y - 0.344136 * cb - 0.714136 * cr, y + 1.772 * cb]
}

/// Within one level of the real value after clamping (rounding slack included).
pub fn ycc_close(real: [f64; 3], got: &[u8]) -> bool {
    (0..3).all(|i| (real[i].clamp(0.0, 255.0) - got[i] as f64).abs() < 1.51)
}

/// 20-bit fixed point conversion of the portable build.
pub fn ycc_fixed(y: u8, cb: u8, cr: u8) -> [u8; 3] {
    let f = |x: f32| (x * 1048576.0 + 0.5) as i64;
    let y = ((y as i64) << 20) + (1 << 19);
    let (cb, cr) = (cb as i64 - 128, cr as i64 - 128);
    let c = |v: i64| (v >> 20).clamp(0, 255) as u8;
    [c(y + f(1.402) * cr), c(y - f(0.34414) * cb - f(0.71414) * cr), c(y + f(1.772) * cb)]
}

// ------------------------------------------------------------ scaling

pub fn scaled(len: usize, n: usize) -> usize {
    cdiv(len * n, 8)
}

pub fn choose_n(w: usize, h: usize, rw: usize, rh: usize) -> usize {
    for n in [1, 2, 4] {
        if scaled(w, n) >= rw || scaled(h, n) >= rh {
            return n;
        }
    }
    8
}

// ------------------------------------------------------------ 16-bit saturation (known finding)

/// Whether the 16-bit vector kernel (values scaled by 8, multiplications as in mulhrs) leaves the
/// i16 range in some intermediate sum of this block. Used only to recognise the listed finding
/// "simd-idct-saturation".
pub fn simd_saturates(c: &[i16; 64], q: &[u16; 64]) -> bool {
    let sat = std::cell::Cell::new(false);
    let mut v = [0i64; 64];
    for i in 0..64 {
        v[i] = c[i] as i64 * q[i] as i64 * 8;
        sat.set(sat.get() || v[i].abs() > 32767);
    }
    for pass in 0..2 {
        for k in 0..8 {
            let at = |i: usize| if pass == 0 { i * 8 + k } else { k * 8 + i };
            let s: Vec<i64> = (0..8).map(|i| v[at(i)]).collect();
            let ck = |x: i64| {
                sat.set(sat.get() || !(-32768..=32767).contains(&x));
                x
            };
            let m = |a: i64, b: i64| (a * b + 16384) >> 15;
            let p1 = m(ck(s[2] + s[6]), 17734);
            let t2 = ck(ck(p1 - s[6]) - m(s[6], 27779));
            let t3 = ck(p1 + m(s[2], 25079));
            let (t0, t1) = (ck(s[0] + s[4]), ck(s[0] - s[4]));
            let (x0, x3, x1, x2) = (ck(t0 + t3), ck(t0 - t3), ck(t1 + t2), ck(t1 - t2));
            let (t0, t1, t2, t3) = (s[7], s[5], s[3], s[1]);
            let (p3, p4, p1, p2) = (ck(t0 + t2), ck(t1 + t3), ck(t0 + t3), ck(t1 + t2));
            let p5 = ck(p3 + p4);
            let p5 = ck(p5 + m(p5, 5763));
            let t0 = m(t0, 9786);
            let t1 = ck(ck(t1 + t1) + m(t1, 1741));
            let t2 = ck(ck(t2 + ck(t2 + t2)) + m(t2, 2383));
            let t3 = ck(t3 + m(t3, 16427));
            let p1 = ck(p5 - m(p1, 29490));
            let p2 = ck(ck(ck(p5 - p2) - p2) - m(p2, 18446));
            let p3 = ck(m(p3, -31509) - p3);
            let p4 = m(p4, -12785);
            let t3 = ck(ck(p1 + p4) + t3);
            let t2 = ck(ck(p2 + p3) + t2);
            let t1 = ck(ck(p2 + p4) + t1);
            let t0 = ck(ck(p1 + p3) + t0);
            for (i, x) in [x0 + t3, x1 + t2, x2 + t1, x3 + t0, x3 - t0, x2 - t1, x1 - t2, x0 - t3].into_iter().enumerate() {
                v[at(i)] = ck(x);
            }
        }
    }
    sat.get() || v.iter().any(|x| x + 8192 + 32 > 32767)
}
