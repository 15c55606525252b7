//! The medium between those who mark images and those who read them: it stores images in lossless
//! files, adds noise and destroys blocks. Whether the damage of a delivery is within what must be
//! tolerated is measured afterwards on the damaged image, not assumed from the plan.
use crate::engine::Ctx;
use crate::refmodel::{self as model, Matrix};
use crate::rng::{mix, Rng};
use image::{DynamicImage, GrayImage, ImageFormat};
use serde::{Deserialize, Serialize};
use std::io::Cursor;

#[derive(Serialize, Deserialize, Clone, Default)]
pub struct Damage {
    /// 0 none, 1 uniform, 2 shift of whole blocks, 3 balanced checkerboard, 4 single pixels, 5 ramps
    pub noise: u8,
    pub amplitude: u64,
    pub noise_seed: u64,
    /// in 1/16 of the blocks
    pub density: u64,
    /// (codeword, bit): the block of that bit is destroyed
    pub destroyed: Vec<(u64, u64)>,
    /// 0 none, 1 all blocks after the used ones are destroyed
    pub rest: u8,
    /// 0 raw, 1 png, 2 bmp, 3 tiff, 4 pnm
    pub container: u8,
}

pub fn random_damage(r: &mut Rng, depth: f64, levels: usize, word_bits: usize, words: usize) -> Damage {
    let budget = (depth / 4. - (1 << levels) as f64 * 0.5).max(0.);
    let destroyed = if word_bits > 0 && r.chance(0.5) {
        let mut d = vec![];
        for w in 0..words.min(8) {
            for _ in 0..r.below(3) {
                d.push((w as u64, r.below(word_bits as u64)));
            }
        }
        d
    } else {
        vec![]
    };
    Damage {
        noise: r.below(6) as u8,
        amplitude: r.log(1, (budget as u64).max(1) * 3),
        noise_seed: r.u64() >> 32,
        density: r.pick(&[1u64, 4, 12, 16, 16]),
        destroyed,
        rest: (r.chance(0.2)) as u8,
        container: r.below(5) as u8,
    }
}

fn shift(p: u8, d: i64) -> u8 {
    let v = p as i64 + d;
    if (0..=255).contains(&v) {
        v as u8
    } else {
        p
    }
}

/// Lossless storage by the image library
pub fn store(m: &Matrix, container: u8) -> Result<Matrix, String> {
    let format = match container % 5 {
        1 => ImageFormat::Png,
        2 => ImageFormat::Bmp,
        3 => ImageFormat::Tiff,
        4 => ImageFormat::Pnm,
        _ => return Ok(m.clone()),
    };
    let img = GrayImage::from_raw(m.rows as u32, m.cols as u32, m.px.clone()).ok_or("dimensions")?;
    let mut file = Cursor::new(vec![]);
    DynamicImage::from(img).write_to(&mut file, format).map_err(|e| e.to_string())?;
    let back = image::load_from_memory_with_format(&file.into_inner(), format).map_err(|e| e.to_string())?;
    Ok(Matrix { rows: m.rows, cols: m.cols, px: back.to_luma8().into_raw() })
}

/// Applies the damage to a copy. Blocks whose noise would exceed the budget stay as they were.
/// `used` is the number of blocks that carry the code stream, `word_bits` the bits of a code word
/// (0: uncoded), and no more than two blocks of a code word are destroyed.
pub fn travel(ctx: &mut Ctx, m: &Matrix, d: &Damage, depth: f64, levels: usize, used: usize, word_bits: usize) -> Matrix {
    let b = 1usize << levels;
    let budget = depth / 4. - b as f64 * 0.5;
    let (lr, lc) = (m.rows / b, m.cols / b);
    let mut out = m.clone();
    let amp = d.amplitude.min(255) as i64;
    let mut noisy = 0u64;
    if d.noise % 6 != 0 {
        for blk in 0..lr * lc {
            let mut r = Rng::new(mix(d.noise_seed, blk as u64));
            if r.below(16) >= d.density {
                continue;
            }
            let (br, bc) = (blk / lc, blk % lc);
            let mut changed: Vec<(usize, u8)> = vec![];
            let mut sum = 0i64;
            let sign = if r.chance(0.5) { 1 } else { -1 };
            let lone = r.below((b * b) as u64) as usize;
            let push = r.below(amp as u64 + 1) as i64;
            for k in 0..b * b {
                let (y, x) = (k / b, k % b);
                let i = (br * b + y) * m.cols + bc * b + x;
                let delta = match d.noise % 6 {
                    1 => r.range(-amp, amp),
                    2 => sign * push / b as i64,
                    3 => amp * if (x + y) % 2 == 0 { sign } else { -sign },
                    4 => {
                        if k == lone {
                            sign * push
                        } else {
                            0
                        }
                    }
                    _ => sign * (x as i64 - (b as i64 - 1) / 2) * amp / b as i64,
                };
                let v = shift(m.px[i], delta);
                sum += v as i64 - m.px[i] as i64;
                changed.push((i, v));
            }
            if (sum.abs() as f64) / (b as f64) < budget - 1e-9 {
                for (i, v) in changed {
                    if out.px[i] != v {
                        noisy += 1;
                    }
                    out.px[i] = v;
                }
            } else {
                ctx.probe("noise over the budget, left out");
            }
        }
    }
    ctx.fault_n("noisy pixel", noisy);
    let mut destroy = |out: &mut Matrix, blk: usize, seed: u64| {
        let (br, bc) = (blk / lc, blk % lc);
        let mut r = Rng::new(seed);
        let style = r.below(6);
        let half = (depth / 2. / b as f64).round() as i64;
        for k in 0..b * b {
            let i = (br * b + k / b) * m.cols + bc * b + k % b;
            out.px[i] = match style {
                0 => 0,
                1 => 255,
                2 => r.u64() as u8,
                // the least change that turns a bit over
                3 => shift(m.px[i], half),
                _ => shift(m.px[i], -half),
            };
        }
    };
    if word_bits > 0 {
        let mut per_word: std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>> = Default::default();
        for (w, bit) in &d.destroyed {
            let words = (used / word_bits).max(1);
            let (w, bit) = (*w as usize % words, *bit as usize % word_bits);
            let set = per_word.entry(w).or_default();
            if w * word_bits + bit < used && (set.len() < 2 || set.contains(&bit)) {
                set.insert(bit);
                destroy(&mut out, w * word_bits + bit, mix(d.noise_seed, bit as u64));
            }
        }
        for (_, s) in per_word {
            ctx.fault_n("destroyed block", s.len() as u64);
            if s.len() == 2 {
                ctx.probe("two destroyed blocks in a code word");
            }
        }
    }
    if d.rest == 1 {
        for blk in used..lr * lc {
            destroy(&mut out, blk, mix(d.noise_seed, blk as u64 + 5));
        }
        if used < lr * lc {
            ctx.fault("unused blocks destroyed");
        }
    }
    if d.container % 5 != 0 {
        ctx.fault("stored in a file and reloaded");
        match store(&out, d.container) {
            Ok(s) => out = s,
            Err(e) => ctx.ev(format!("container failed: {}", e)),
        }
    }
    out
}

/// Bits that differ between two images, per code word: the most in any word among the first `used`
pub fn worst_word(a: &Matrix, b: &Matrix, depth: f64, levels: usize, used: usize, word_bits: usize) -> usize {
    let (pa, pb) = (model::positions(a, depth, levels), model::positions(b, depth, levels));
    let step = if word_bits > 0 { word_bits } else { usize::MAX };
    let mut worst = 0;
    let mut start = 0;
    while start < used {
        let end = (start.saturating_add(step)).min(used);
        // a block whose bit is not clear counts as damaged
        let n = (start..end).filter(|i| (pa[*i] >= 0.) != (pb[*i] >= 0.) || pb[*i].abs() < 1e-6 || pb[*i].abs() > 0.5 - 1e-6).count();
        worst = worst.max(n);
        start = end;
    }
    worst
}
