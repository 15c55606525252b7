//! Calls into the libraries, chosen from a small pool of parameters so that whatever the code keeps
//! between calls is asked for again with other arguments.
use crate::engine::{call, in_fresh_process};
use crate::interpose;
use crate::refmodel as model;
use crate::rng::{hash_bytes, mix, Rng};
use image::GrayImage;
use ndarray::Array2;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use watermarking::sim_hooks;

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Op {
    /// see `run`
    pub kind: u8,
    /// size of the picture, index into SIZES
    pub size: u8,
    pub picture: u8,
    pub depth: u8,
    pub step: u8,
    pub features: u8,
    pub seed: u8,
    /// an argument that makes the call fail or changes what it gets
    pub odd: u8,
    /// other contents of the same lengths
    #[serde(default, skip_serializing_if = "nothing")]
    pub more: u32,
}
fn nothing(n: &u32) -> bool {
    *n == 0
}

pub const KINDS: u8 = 13;
pub const NAMES: [&str; KINDS as usize] = ["watermark channel", "authenticate", "embed", "extract", "encode", "decode", "quantize", "dequantize", "features", "sign", "verify", "generate keys", "record"];
const SIZES: [(usize, usize); 8] = [(54, 54), (56, 54), (54, 56), (64, 50), (50, 64), (60, 60), (58, 54), (128, 32)];
const SMALL: [(usize, usize); 8] = [(8, 8), (8, 16), (16, 8), (7, 9), (12, 12), (16, 16), (9, 9), (20, 6)];
const DEPTHS: [f64; 4] = [40., 24., 40., 64.];
const STEPS: [f64; 4] = [4., 2., 8., 1.];
const FEATURES: [usize; 4] = [1, 2, 1, 3];
const CAPACITIES: [usize; 8] = [16, 32, 91, 128, 256, 64, 200, 512];

pub fn random(r: &mut Rng, spread: u64) -> Op {
    let kind = r.pick(&[0u8, 0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 8, 8, 9, 10, 10, 11, 12]);
    let mut b = |n: u64| r.below(n.min(spread)) as u8;
    Op { kind, size: b(8), picture: b(4), depth: b(4), step: b(4), features: b(8), seed: b(4), odd: 0, more: 0 }.odd(if r.chance(0.15) { 1 + r.below(4) as u8 } else { 0 })
}

/// One of very many different calls of a kind
pub fn wide(r: &mut Rng, kind: u8) -> Op {
    let narrow = r.below(8);
    let mut b = |k: u64, n: u64| if narrow == k { 0 } else { r.below(n) as u8 };
    Op { kind, size: b(1, 200), picture: b(2, 200), depth: b(3, 200), step: b(4, 200), features: b(5, 200), seed: b(6, 200), odd: 0, more: 0 }
}

impl Op {
    pub fn cheap(&self) -> bool {
        self.kind % KINDS >= 4
    }
    fn odd(mut self, odd: u8) -> Op {
        self.odd = odd;
        self
    }
    pub fn name(&self) -> String {
        format!("{}{}", NAMES[self.kind as usize % KINDS as usize], if self.odd > 0 { " (odd)" } else { "" })
    }
    fn depth(&self) -> f64 {
        DEPTHS.get(self.depth as usize).cloned().unwrap_or(20. + self.depth as f64 / 4.)
    }
    fn step(&self) -> f64 {
        STEPS.get(self.step as usize).cloned().unwrap_or(0.5 + self.step as f64 / 16.)
    }
    /// what decides the content of pictures and keys, and of other data
    fn picture(&self) -> u64 {
        self.picture as u64 + ((self.more as u64) << 8)
    }
    fn seed(&self) -> u64 {
        self.seed as u64 + ((self.more as u64) << 8)
    }
    fn n(&self) -> usize {
        FEATURES[self.features as usize % 4]
    }
    fn gray(&self) -> GrayImage {
        let k = self.size as usize;
        let (w, h) = SIZES.get(k).cloned().unwrap_or((54 + 2 * (k % 5), 54 + k / 5 % 5 * 2));
        GrayImage::from_raw(w as u32, h as u32, model::picture(w, h, self.picture(), self.picture % 5, 40, 210)).unwrap()
    }
    fn data(&self) -> Vec<u8> {
        let n = [5usize, 12, 40, 60].get(self.seed as usize).cloned().unwrap_or(1 + self.seed as usize * 7 % 60);
        Rng::new(self.seed()).bytes(n)
    }
    /// What the call returns, as bytes; an error when it panics
    pub fn run(&self) -> Result<Vec<u8>, String> {
        let (depth, step, n) = (self.depth(), self.step(), self.n());
        let odd = self.odd % 5;
        match self.kind % KINDS {
            0 => {
                let mut g = self.gray();
                if odd == 1 {
                    g = GrayImage::new(31, 54); // cannot be transformed
                } else if odd == 2 {
                    g = GrayImage::new(32, 32); // no room
                } else if odd > 2 && self.size % 2 == 0 {
                    // a whole picture
                    let (w, h) = (216, 216);
                    let g = GrayImage::from_raw(w, h, model::picture(w as usize, h as usize, self.picture(), 4, 40, 210)).unwrap();
                    return call(|| watermarking::watermark(image::DynamicImage::from(g), 100., step, 1).to_rgba8().into_raw());
                }
                call(|| sim_hooks::watermark_channel(&g, depth, step, n, 1).into_raw())
            }
            1 => {
                let g = self.gray();
                // marked by the reference, so that nothing but the call itself runs the code under test
                let mut m = if odd == 1 { g } else { model::watermark_channel(&g, depth, step, n, 1).unwrap_or(g) };
                if odd == 2 {
                    let w = m.width();
                    for (i, p) in m.pixels_mut().enumerate() {
                        if (i as u32 / w) % 3 == 0 {
                            p[0] = 255 - p[0];
                        }
                    }
                }
                let depth = if odd == 3 { depth / 2. } else { depth };
                call(|| vec![sim_hooks::authenticate_channel(&m, depth, step, n, 1) as u8])
            }
            2 | 3 => {
                let g = self.gray();
                let (w, h) = g.dimensions();
                let m = model::matrix(&g);
                let data = if odd == 1 { Rng::new(7).bytes(200) } else { self.data() };
                if self.kind % KINDS == 2 {
                    let a = Array2::from_shape_vec([w as usize, h as usize], m.px).unwrap();
                    call(|| embedding::embed(a, data, depth, 1).into_raw_vec())
                } else {
                    let e = if odd == 2 { m } else { model::embed(&m, &data, depth, 1).unwrap_or(m) };
                    let a = Array2::from_shape_vec([w as usize, h as usize], e.px).unwrap();
                    if odd == 3 {
                        return call(|| embedding::extract(a, depth * 1.7, 1));
                    }
                    call(|| embedding::try_extract(a, depth, 1).map_or(vec![], |d| [vec![1], d].concat()))
                }
            }
            4 | 5 => {
                let cap = CAPACITIES.get(self.size as usize).cloned().unwrap_or(9 + self.size as usize * 7 % 700);
                let data = self.data();
                if self.kind % KINDS == 4 {
                    if odd == 1 {
                        return call(|| encoding::encode(vec![1; 65536], cap));
                    }
                    call(|| encoding::encode(data, cap))
                } else {
                    let mut s = model::encode(&data, cap);
                    if odd == 1 {
                        s.truncate(s.len() / 3);
                        return call(|| encoding::decode(s, cap));
                    }
                    if model::code_for(cap).is_some() {
                        s[self.picture as usize % 4] ^= 4;
                    }
                    call(|| encoding::try_decode(s, cap).map_or(vec![], |d| [vec![1], d].concat()))
                }
            }
            6 | 7 => {
                use three_bit_quantization::*;
                let mut r = Rng::new(self.seed());
                let count = [3, 11, 5, 1].get(self.features as usize).cloned().unwrap_or(1 + self.features as usize % 80);
                let f: Vec<f64> = (0..count).map(|_| r.f() * 50. - 5.).collect();
                if self.kind % KINDS == 6 {
                    call(|| {
                        let (q, b) = three_bit_quantization(&f, step);
                        [model::to_bytes(&q), perturbation_vector_as_bytes(&b)].concat()
                    })
                } else {
                    let (_, bits) = model::quantize(&f, step);
                    let given = model::pack(&bits);
                    let mut f: Vec<f64> = f.iter().map(|x| x + (r.f() - 0.5) * step).collect();
                    if odd == 1 {
                        f.pop();
                    }
                    call(|| model::to_bytes(&three_bit_dequantization(&f, &perturbation_vector_from_bytes(&given, bits.len()), step)))
                }
            }
            8 => {
                use image_features::{calculate_features, feature_types::FeaturesType};
                let k = self.size as usize;
                let (w, h) = SMALL.get(k).cloned().unwrap_or((5 + k % 15, 5 + k / 15));
                let px = model::picture(w, h, self.picture(), 4, 0, 255);
                let a = Array2::from_shape_vec([w, h], px).unwrap();
                let n = [1, 2, 3, 5, 7, 9, 4, 11].get(self.features as usize).cloned().unwrap_or(1 + self.features as usize % 7);
                call(|| calculate_features(&a, FeaturesType::MomentsZernike, n).iter().flat_map(|x| x.to_bits().to_le_bytes()).collect())
            }
            9 | 10 => {
                let private = Rng::new(self.picture()).bytes(32);
                let public = model::public_of(&private);
                let message = self.data();
                if self.kind % KINDS == 9 {
                    let private = if odd == 1 { "00".into() } else { model::hex(&private) };
                    call(|| sia_signature::sign(&message, &private, &model::hex(&public)))
                } else {
                    let mut s = model::sign(&message, &private);
                    let mut public = model::hex(&public);
                    match odd {
                        1 => public = "00".into(),
                        2 => s[0] ^= 1,
                        3 => s.truncate(20),
                        _ => {}
                    }
                    call(|| vec![sia_signature::verify(&message, &s, &public) as u8])
                }
            }
            11 => {
                interpose::set_entropy(self.seed() + 100);
                call(|| {
                    let (a, b) = sia_signature::sim_hooks::generate();
                    format!("{} {}", a, b).into_bytes()
                })
            }
            _ => {
                use sim_hooks::{deserialize, Watermark};
                let bits: Vec<bool> = (0..3 * n).map(|i| i % 2 == self.seed as usize % 2).collect();
                let w = Watermark::new(bits.iter().collect(), self.data(), if odd == 1 { "x".repeat(300) } else if self.picture() == 0 { "Hello".into() } else { format!("Hello {:012}", self.picture()) });
                if odd == 2 {
                    return call(|| fields(&deserialize(&vec![9, 9])));
                }
                call(|| {
                    let b = w.serialize();
                    let mut out = fields(&deserialize(&b));
                    out.extend(b);
                    out
                })
            }
        }
    }
    pub fn outcome(&self) -> Vec<u8> {
        match self.run() {
            Ok(b) => [b"K".to_vec(), b].concat(),
            Err(_) => b"P".to_vec(),
        }
    }
}

fn fields(w: &sim_hooks::Watermark) -> Vec<u8> {
    let bits: Vec<u8> = w.perturbation_vector.iter().map(|b| *b as u8).collect();
    [bits, vec![255], w.signature.clone(), vec![255], w.text.clone().into_bytes()].concat()
}

/// What each call returns when it is the first and only one of its process
pub fn references<'a>(ops: impl Iterator<Item = &'a Op>) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let mut out: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for op in ops {
        let key = serde_json::to_string(op).unwrap();
        if !out.contains_key(&key) {
            let r = in_fresh_process(|| op.outcome()).map_err(|e| format!("{}: {}", op.name(), e))?;
            out.insert(key, r);
        }
    }
    Ok(out)
}

pub fn short(o: &[u8]) -> String {
    match o.first() {
        Some(b'P') => "panic".into(),
        _ => format!("{} bytes {:x}", o.len().saturating_sub(1), hash_bytes(o) ^ mix(1, 1)),
    }
}
