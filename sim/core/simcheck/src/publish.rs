//! Publications: pictures watermarked with the repository's code, and what an observer knows of them
use crate::engine::call;
use crate::medium;
use crate::refmodel::{self as model, Matrix};
use crate::rng::Rng;
use crate::s02::range;
use image::{DynamicImage, GrayImage, LumaA, Rgb, Rgba};
use serde::{Deserialize, Serialize};
use watermarking::sim_hooks;

#[derive(Serialize, Deserialize, Clone)]
pub struct Publication {
    pub at: u64,
    pub width: u64,
    pub height: u64,
    pub levels: u64,
    /// in quarters
    pub depth4: u64,
    /// in 1/64
    pub step64: u64,
    pub features: u64,
    pub kind: u8,
    pub seed: u64,
    pub contrast: u64,
    pub offset: i64,
    /// 0: a single channel; 1..4: a whole image, grey, grey and alpha, colour, colour and alpha
    pub whole: u8,
    /// How often the picture had been published before, with the same parameters
    #[serde(default)]
    pub again: u8,
}

impl Publication {
    pub fn depth(&self) -> f64 {
        self.depth4 as f64 / 4.
    }
    pub fn step(&self) -> f64 {
        self.step64 as f64 / 64.
    }
    pub fn payload(&self) -> usize {
        3 + (3 * self.features as usize).div_ceil(8) + 64 + 12
    }
    /// Blocks that carry the code stream, bits of a code word (0: uncoded)
    pub fn used(&self) -> (usize, usize) {
        let cap = self.capacity();
        let bits = model::encode(&vec![0; self.payload() + 2], cap).len() * 8;
        (bits, model::code_for(cap).map_or(0, |c| c.n()))
    }
    pub fn capacity(&self) -> usize {
        let l = self.levels;
        ((self.width >> l) * (self.height >> l) / 8) as usize
    }
    pub fn valid(&self) -> bool {
        let b = 1u64 << self.levels.min(8);
        (1..=4).contains(&self.levels)
            && self.width % b == 0
            && self.height % b == 0
            && self.width > 0
            && self.height > 0
            && self.width * self.height <= 300 * 300
            && (1..=40).contains(&self.features)
            && self.step64 > 0
            && self.whole <= 4
            && (self.whole == 0 || self.levels == 3)
            && self.payload() + 2 <= model::room(self.capacity())
            && self.capacity() >= 9
            && self.depth() / 4. - b as f64 * 0.5 > 1e-9
            && self.again <= 2
            && self.range().is_some()
    }
    /// Every publication moves the pixels once more
    fn range(&self) -> Option<(u8, u8)> {
        range(self.depth() * (1. + self.again as f64), self.levels as usize, self.contrast, self.offset)
    }
    pub fn source(&self, channel: u64) -> GrayImage {
        let (w, h) = (self.width as usize, self.height as usize);
        let (lo, hi) = self.range().unwrap();
        let picture = GrayImage::from_raw(w as u32, h as u32, model::picture(w, h, self.seed + 7919 * channel, self.kind, lo, hi)).unwrap();
        (0..self.again).fold(picture, |p, _| model::watermark_channel(&p, self.depth(), self.step(), self.features as usize, self.levels as usize).unwrap_or(p))
    }
    /// Channels that are watermarked
    pub fn channels(&self) -> u64 {
        if self.whole >= 3 {
            3
        } else {
            1
        }
    }
    pub fn image(&self) -> DynamicImage {
        let (w, h) = (self.width as u32, self.height as u32);
        let c: Vec<GrayImage> = (0..self.channels()).map(|i| self.source(i)).collect();
        let mut r = Rng::new(self.seed);
        let alpha: Vec<u8> = (0..w * h).map(|_| if r.chance(0.5) { 255 } else { r.u64() as u8 }).collect();
        let a = |x: u32, y: u32| alpha[(y * w + x) as usize];
        match self.whole {
            1 => DynamicImage::ImageLuma8(c[0].clone()),
            2 => DynamicImage::ImageLumaA8(image::ImageBuffer::from_fn(w, h, |x, y| LumaA([c[0].get_pixel(x, y)[0], a(x, y)]))),
            3 => DynamicImage::ImageRgb8(image::ImageBuffer::from_fn(w, h, |x, y| Rgb([c[0].get_pixel(x, y)[0], c[1].get_pixel(x, y)[0], c[2].get_pixel(x, y)[0]]))),
            _ => DynamicImage::ImageRgba8(image::ImageBuffer::from_fn(w, h, |x, y| Rgba([c[0].get_pixel(x, y)[0], c[1].get_pixel(x, y)[0], c[2].get_pixel(x, y)[0], a(x, y)]))),
        }
    }
    /// The marked channels
    pub fn mark(&self) -> Result<Vec<GrayImage>, String> {
        let (depth, step, n) = (self.depth(), self.step(), self.features as usize);
        if self.whole == 0 {
            let source = self.source(0);
            let levels = self.levels as usize;
            return call(|| sim_hooks::watermark_channel(&source, depth, step, n, levels)).map(|m| vec![m]);
        }
        let image = self.image();
        let out = call(|| watermarking::watermark(image, depth, step, n))?;
        let (w, h) = (self.width as u32, self.height as u32);
        if (out.width(), out.height()) != (w, h) {
            return Err(format!("the image became {}x{}", out.width(), out.height()));
        }
        let rgba = out.to_rgba8();
        Ok((0..self.channels() as usize).map(|c| GrayImage::from_fn(w, h, |x, y| image::Luma([rgba.get_pixel(x, y)[c]]))).collect())
    }
    pub fn verify(&self, channel: &GrayImage) -> Result<bool, String> {
        authenticate(channel, self.depth(), self.step(), self.features as usize, self.levels as usize)
    }
    pub fn text(&self) -> String {
        format!("{}x{} levels {} depth {} step {} features {} kind {} whole {}{}", self.width, self.height, self.levels, self.depth(), self.step(), self.features, self.kind, self.whole, ["", ", published before", ", published twice before"][self.again as usize % 3])
    }
}

pub fn authenticate(channel: &GrayImage, depth: f64, step: f64, n: usize, levels: usize) -> Result<bool, String> {
    call(|| sim_hooks::authenticate_channel(channel, depth, step, n, levels))
}

pub fn matrix(c: &GrayImage) -> Matrix {
    model::matrix(c)
}

/// Pictures small enough to simulate many of them, with every code that has room
pub fn random(r: &mut Rng, whole: bool) -> Publication {
    // the time a picture takes grows with its size and the square of the number of features
    let rare = r.below(200);
    let most = match rare {
        0 | 1 => 2_000_000,
        r if r < 13 => 420_000,
        _ => 80_000,
    };
    loop {
        let (levels, (a, b)) = if whole {
            (3, r.pick(&[(27, 27), (28, 27), (27, 28), (24, 30), (30, 24), (36, 20), (20, 36)]))
        } else {
            let levels = match r.below(40) {
                0 if rare < 13 => 3,
                x if x < 30 => 1,
                _ => 2u64,
            };
            let area = match r.below(8) {
                0 | 1 => r.pick(&[(64u64, 32u64), (32, 64), (128, 16), (16, 128)]),
                2 => r.pick(&[(64, 64), (32, 128), (128, 32)]),
                3 if levels == 1 => r.pick(&[(96, 88), (88, 96), (64, 128), (92, 90)]),
                4 => (r.below(8) + 20, r.below(20) + 36),
                5 => (r.below(20) + 36, r.below(8) + 20),
                _ => (r.below(16) + 27, r.below(16) + 27),
            };
            (levels, area)
        };
        let features = if rare < 4 { r.pick(&[6u64, 8, 9, 10, 12, 13, 15, 16, 17, 20, 22, 24, 30, 40]) } else { r.pick(&[1u64, 1, 2, 2, 3, 3, 4, 5, 7, 11]) };
        let size = 1u64 << levels;
        let depth4 = 4 * match r.below(3) {
            0 => r.pick(&[100u64, 64, 32, 20]),
            1 if r.chance(0.3) => r.log(100, 160 * size).min(600),
            _ => r.log(2 * size + 2, 120.min(60 * size)),
        } + r.pick(&[0, 0, 1, 2]);
        let p = Publication {
            at: r.below(1000),
            width: a << levels,
            height: b << levels,
            levels,
            depth4: if whole { r.pick(&[400, 400, 240, 300]) } else { depth4 },
            step64: match r.below(3) {
                0 => r.pick(&[64u64, 64, 32, 128, 256, 512]),
                _ => r.log(16, 64 * 24),
            },
            features: if whole { features.min(2) } else { features },
            kind: r.below(5) as u8,
            seed: r.u64() >> 40,
            contrast: r.pick(&[255u64, 200, 150, 100, 60, 30, 0]),
            offset: r.range(-60, 60),
            whole: if whole { 1 + r.below(4) as u8 } else { 0 },
            again: 0,
        };
        if p.valid() && (whole || p.width * p.height * p.features * p.features <= most) {
            return p;
        }
    }
}

/// Sometimes pictures that carry a watermark already
pub fn repeated(r: &mut Rng, p: Publication) -> Publication {
    let again = Publication { again: 1 + r.below(3) as u8 / 2, ..p.clone() };
    if r.chance(0.12) && again.valid() { again } else { p }
}

/// A picture changed by the medium, within or beyond its budget
pub fn stored(c: &GrayImage, container: u8) -> GrayImage {
    match medium::store(&matrix(c), container) {
        Ok(m) => model::channel(&m),
        Err(_) => c.clone(),
    }
}
