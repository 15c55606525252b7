//! An independent, small implementation of the published watermark format: it plays the "other
//! release" in mixed fleets and is the oracle where two results must agree. It shares no code with
//! the repository (only the error-correcting code and the signature primitives of the same crates).
use crate::rng::{mix, Rng};
use ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey, Signature, Verifier};
use image::GrayImage;
use labrador_ldpc::LDPCCode;

pub const PRIVATE_KEY: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
pub const PUBLIC_KEY: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";

// ---- pictures --------------------------------------------------------------------------------
/// A picture as a function of few numbers
pub fn picture(w: usize, h: usize, seed: u64, kind: u8, lo: u8, hi: u8) -> Vec<u8> {
    let mut r = Rng::new(mix(seed, kind as u64));
    let (lo, hi) = (lo.min(hi) as f64, lo.max(hi) as f64);
    let waves: Vec<(f64, f64, f64, f64)> = (0..5).map(|_| (r.f() * 0.12, r.f() * 0.12, r.f() * 6.28, 0.2 + r.f())).collect();
    let total: f64 = waves.iter().map(|w| w.3).sum();
    let mut out = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            let v = match kind % 5 {
                0 => 0.5 + 0.5 * waves.iter().map(|(a, b, p, m)| m * (x as f64 * a + y as f64 * b + p).sin()).sum::<f64>() / total,
                1 => r.f(),
                2 => 0.5,
                3 => {
                    let cell = ((x / 8) * 31 + (y / 8) * 17) as u64;
                    (mix(seed, cell) & 0xffff) as f64 / 65536.
                }
                _ => {
                    let base = 0.5 + 0.35 * waves.iter().map(|(a, b, p, m)| m * (x as f64 * a + y as f64 * b + p).sin()).sum::<f64>() / total;
                    (base + 0.3 * (r.f() - 0.5)).clamp(0., 1.)
                }
            };
            out.push((lo + (hi - lo) * v).round().clamp(0., 255.) as u8);
        }
    }
    out
}

// ---- error-correcting code ---------------------------------------------------------------------
pub fn code_for(capacity: usize) -> Option<LDPCCode> {
    let bits = capacity * 8;
    if bits == 128 {
        Some(LDPCCode::TC128)
    } else if bits == 256 {
        Some(LDPCCode::TC256)
    } else if bits == 512 || bits == 1024 {
        Some(LDPCCode::TC512)
    } else if bits == 2048 || bits == 4096 {
        Some(LDPCCode::TM2048)
    } else if bits >= 8192 {
        Some(LDPCCode::TM8192)
    } else {
        None
    }
}

pub fn encode(data: &[u8], capacity: usize) -> Vec<u8> {
    let mut all = (data.len() as u16).to_be_bytes().to_vec();
    all.extend_from_slice(data);
    match code_for(capacity) {
        None => all,
        Some(code) => {
            let k = code.k() / 8;
            let mut out = vec![];
            for word in all.chunks(k) {
                let mut padded = word.to_vec();
                padded.resize(k, 0);
                let mut coded = vec![0; code.n() / 8];
                code.copy_encode(&padded, &mut coded);
                out.extend(coded);
            }
            out
        }
    }
}

pub fn decode_word(code: LDPCCode, word: &[u8]) -> Vec<u8> {
    let mut working = vec![0u8; code.decode_bf_working_len()];
    let mut out = vec![0u8; code.output_len()];
    code.decode_bf(word, &mut out, &mut working, 20);
    out.truncate(code.k() / 8);
    out
}

pub fn decode(stream: &[u8], capacity: usize) -> Option<Vec<u8>> {
    let plain: Vec<u8> = match code_for(capacity) {
        None => stream.to_vec(),
        Some(code) => stream.chunks_exact(code.n() / 8).flat_map(|w| decode_word(code, w)).collect(),
    };
    if plain.len() < 2 {
        return None;
    }
    let n = u16::from_be_bytes([plain[0], plain[1]]) as usize;
    plain.get(2..2 + n).map(|d| d.to_vec())
}

/// How many bytes of payload fit
pub fn room(capacity: usize) -> usize {
    match code_for(capacity) {
        None => capacity.saturating_sub(2),
        Some(code) => ((capacity / (code.n() / 8)) * code.k() / 8).saturating_sub(2),
    }
    .min(65535)
}

// ---- embedding -----------------------------------------------------------------------------------
/// Rows and columns as the library's matrices have them: the first dimension is `rows`
#[derive(Clone)]
pub struct Matrix {
    pub rows: usize,
    pub cols: usize,
    pub px: Vec<u8>,
}

/// Low-frequency coefficients: the sum of each 2^L x 2^L block over 2^L
pub fn low(m: &Matrix, levels: usize) -> (usize, usize, Vec<f64>) {
    let b = 1usize << levels;
    let (lr, lc) = (m.rows / b, m.cols / b);
    let mut out = vec![0f64; lr * lc];
    for r in 0..lr {
        for c in 0..lc {
            let mut sum = 0u64;
            for i in 0..b {
                for j in 0..b {
                    sum += m.px[(r * b + i) * m.cols + c * b + j] as u64;
                }
            }
            out[r * lc + c] = sum as f64 / b as f64;
        }
    }
    (lr, lc, out)
}

pub fn capacity(m: &Matrix, levels: usize) -> usize {
    let b = 1usize << levels;
    (m.rows / b) * (m.cols / b) / 8
}

/// Fractional position of each coefficient, -0.5..0.5 of the depth
pub fn positions(m: &Matrix, depth: f64, levels: usize) -> Vec<f64> {
    low(m, levels).2.iter().map(|c| c / depth - (c / depth).round()).collect()
}

pub fn read_bytes(m: &Matrix, depth: f64, levels: usize) -> Vec<u8> {
    let (_, _, l) = low(m, levels);
    let n = l.len() / 8;
    (0..n).map(|i| (0..8).fold(0u8, |a, k| a | ((l[i * 8 + k] - depth * (l[i * 8 + k] / depth).round() >= 0.) as u8) << k)).collect()
}

/// Writes bits into the first coefficients; None when they do not fit
pub fn write_bytes(m: &Matrix, bytes: &[u8], depth: f64, levels: usize) -> Option<Matrix> {
    let b = 1usize << levels;
    let (lr, lc, l) = low(m, levels);
    if bytes.len() > lr * lc / 8 {
        return None;
    }
    let mut out = m.clone();
    for i in 0..bytes.len() * 8 {
        let bit = bytes[i / 8] >> (i % 8) & 1 == 1;
        let target = depth * ((l[i] / depth).round() + if bit { 0.25 } else { -0.25 });
        let delta = (target - l[i]) / b as f64;
        let (r, c) = (i / lc, i % lc);
        for y in 0..b {
            for x in 0..b {
                let p = &mut out.px[(r * b + y) * m.cols + c * b + x];
                *p = (*p as f64 + delta).round() as u8;
            }
        }
    }
    Some(out)
}

pub fn wrap(data: &[u8]) -> Vec<u8> {
    let mut all = (data.len() as u16).to_le_bytes().to_vec();
    all.extend_from_slice(data);
    all
}

pub fn unwrap(bytes: &[u8]) -> Option<Vec<u8>> {
    if bytes.len() < 3 {
        return None;
    }
    let n = u16::from_le_bytes([bytes[0], bytes[1]]) as usize;
    bytes.get(2..2 + n).map(|d| d.to_vec())
}

pub fn embed(m: &Matrix, data: &[u8], depth: f64, levels: usize) -> Option<Matrix> {
    write_bytes(m, &encode(&wrap(data), capacity(m, levels)), depth, levels)
}

pub fn extract(m: &Matrix, depth: f64, levels: usize) -> Option<Vec<u8>> {
    unwrap(&decode(&read_bytes(m, depth, levels), capacity(m, levels))?)
}

// ---- features ---------------------------------------------------------------------------------------
pub fn equalize(px: &[u8]) -> Vec<u8> {
    let mut cumulative = [0u32; 256];
    for p in px {
        cumulative[*p as usize] += 1;
    }
    for i in 1..256 {
        cumulative[i] += cumulative[i - 1];
    }
    let total = cumulative[255] as f32;
    px.iter().map(|p| f32::min(255., 255. * (cumulative[*p as usize] as f32 / total)) as u8).collect()
}

fn factorial(n: i64) -> f64 {
    (1..=n).map(|x| x as f64).product()
}

/// Magnitudes of the Zernike moments of order 1 + 2 (n - 1) and indices 1, 3, ... over the
/// unit disc circumscribed about the square of the larger side. `w` is the first dimension.
pub fn features(px: &[u8], w: usize, h: usize, n: usize) -> Vec<f64> {
    let order = 1 + 2 * (n as i64 - 1);
    let dim = w.max(h);
    let mut sums = vec![(0f64, 0f64); n];
    let indices: Vec<i64> = (0..n as i64).map(|i| 1 + 2 * i).collect();
    // coefficients of r^(order - 2 s)
    let coefficients: Vec<Vec<f64>> = indices
        .iter()
        .map(|m| {
            (0..=(order - m) / 2)
                .map(|s| {
                    let sign = if s % 2 == 0 { 1. } else { -1. };
                    sign * factorial(order - s) / (factorial(s) * factorial((order + m) / 2 - s) * factorial((order - m) / 2 - s))
                })
                .collect()
        })
        .collect();
    for (i, p) in px.iter().enumerate() {
        let (row, col) = (i / w, i % w);
        let d = dim as f64;
        let scale = std::f64::consts::FRAC_1_SQRT_2 / (1. - d);
        let x = scale * (1. + d - 2. * (row as f64 + 1.));
        let y = scale * (1. + d - 2. * (col as f64 + 1.));
        let r2 = x * x + y * y;
        let r = r2.sqrt();
        let theta = if r == 0. { 0. } else { y.atan2(x) };
        for (j, m) in indices.iter().enumerate() {
            // Horner in r^2, lowest power r^m last
            let c = &coefficients[j];
            let mut value = c[0];
            for k in &c[1..] {
                value = value * r2 + k;
            }
            value *= r.powi(*m as i32);
            let angle = -(*m as f64) * theta;
            sums[j].0 += value * angle.cos() * *p as f64;
            sums[j].1 += value * angle.sin() * *p as f64;
        }
    }
    let factor = (order as f64 + 1.) / std::f64::consts::PI / (w * h) as f64;
    sums.iter().map(|(a, b)| factor * (a * a + b * b).sqrt()).collect()
}

pub fn channel_features(channel: &GrayImage, n: usize) -> Vec<f64> {
    let (w, h) = channel.dimensions();
    features(&equalize(channel.as_raw()), w as usize, h as usize, n)
}

// ---- quantizer ------------------------------------------------------------------------------------------
/// Integers and three bits per feature: (q - 1) mod 4 (high bit first), upper half of the cell
pub fn quantize(f: &[f64], step: f64) -> (Vec<i64>, Vec<bool>) {
    let mut bits = vec![];
    let q: Vec<i64> = f.iter().map(|x| (x / step).floor() as i64).collect();
    for (x, q) in f.iter().zip(&q) {
        let m = (q - 1).rem_euclid(4);
        bits.push(m & 2 != 0);
        bits.push(m & 1 != 0);
        bits.push(*x >= step * (*q as f64 + 0.5));
    }
    (q, bits)
}

pub fn restore(f: &[f64], bits: &[bool], step: f64) -> Vec<i64> {
    let (_, own) = quantize(f, step);
    f.iter()
        .enumerate()
        .map(|(i, x)| {
            let index = |b: &[bool]| ((b[3 * i] as i64) << 1) + b[3 * i + 1] as i64;
            let (given, mine) = (index(bits), index(&own));
            let (g3, m3) = (bits[3 * i + 2], own[3 * i + 2]);
            let y = match (mine - given).rem_euclid(4) {
                3 if !g3 || m3 => x + step,
                1 if g3 || !m3 => x - step,
                _ => *x,
            };
            (y / step).floor() as i64
        })
        .collect()
}

pub fn pack(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        out[i / 8] |= (*b as u8) << (i % 8);
    }
    out
}

pub fn to_bytes(q: &[i64]) -> Vec<u8> {
    q.iter().flat_map(|x| x.to_le_bytes()).collect()
}

// ---- records -------------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct Record {
    pub bits: usize,
    pub perturbation: Vec<u8>,
    pub signature: Vec<u8>,
    pub text: Vec<u8>,
}

pub fn record(r: &Record) -> Vec<u8> {
    let mut out = vec![r.bits as u8, r.signature.len() as u8, r.text.len() as u8];
    out.extend(&r.perturbation);
    out.extend(&r.signature);
    out.extend(&r.text);
    out
}

pub fn parse(bytes: &[u8]) -> Option<Record> {
    if bytes.len() < 3 {
        return None;
    }
    let (bits, s, t) = (bytes[0] as usize, bytes[1] as usize, bytes[2] as usize);
    let p = (bits + 7) / 8;
    let r = Record {
        bits,
        perturbation: bytes.get(3..3 + p)?.to_vec(),
        signature: bytes.get(3 + p..3 + p + s)?.to_vec(),
        text: bytes.get(3 + p + s..3 + p + s + t)?.to_vec(),
    };
    std::str::from_utf8(&r.text).ok()?;
    Some(r)
}

// ---- signatures --------------------------------------------------------------------------------------------------
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn public_of(private: &[u8]) -> Vec<u8> {
    PublicKey::from(&SecretKey::from_bytes(private).unwrap()).to_bytes().to_vec()
}
pub fn sign(message: &[u8], private: &[u8]) -> Vec<u8> {
    let secret = SecretKey::from_bytes(private).unwrap();
    let public = PublicKey::from(&secret);
    ExpandedSecretKey::from(&secret).sign(message, &public).to_bytes().to_vec()
}
pub fn verify(message: &[u8], signature: &[u8], public: &[u8]) -> bool {
    match (PublicKey::from_bytes(public), Signature::from_bytes(signature)) {
        (Ok(p), Ok(s)) => p.verify(message, &s).is_ok(),
        _ => false,
    }
}

// ---- whole channels -------------------------------------------------------------------------------------------------
/// A channel's pixels as the matrix the library makes of them: (width, height), row-major, although
/// the buffer has rows of `width`
pub fn matrix(channel: &GrayImage) -> Matrix {
    let (w, h) = channel.dimensions();
    Matrix { rows: w as usize, cols: h as usize, px: channel.as_raw().clone() }
}
pub fn channel(m: &Matrix) -> GrayImage {
    GrayImage::from_raw(m.rows as u32, m.cols as u32, m.px.clone()).unwrap()
}

pub fn watermark_record(channel: &GrayImage, step: f64, n: usize, text: &str, private: &[u8]) -> (Vec<f64>, Vec<u8>) {
    let f = channel_features(channel, n);
    let (q, bits) = quantize(&f, step);
    let r = Record { bits: bits.len(), perturbation: pack(&bits), signature: sign(&to_bytes(&q), private), text: text.as_bytes().to_vec() };
    (f, record(&r))
}

pub fn watermark_channel(image: &GrayImage, depth: f64, step: f64, n: usize, levels: usize) -> Option<GrayImage> {
    let (_, payload) = watermark_record(image, step, n, "Hello world!", &unhex(PRIVATE_KEY));
    Some(channel(&embed(&matrix(image), &payload, depth, levels)?))
}

pub fn authenticate_channel(image: &GrayImage, depth: f64, step: f64, n: usize, levels: usize) -> bool {
    let payload = match extract(&matrix(image), depth, levels) {
        Some(p) => p,
        None => return false,
    };
    let r = match parse(&payload) {
        Some(r) => r,
        None => return false,
    };
    let f = channel_features(image, n);
    if r.bits != 3 * f.len() {
        return false;
    }
    let bits: Vec<bool> = (0..r.bits).map(|i| r.perturbation[i / 8] >> (i % 8) & 1 == 1).collect();
    let q = restore(&f, &bits, step);
    verify(&to_bytes(&q), &r.signature, &unhex(PUBLIC_KEY))
}
