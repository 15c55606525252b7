//! C02: publishers embed data in images, the medium damages them within the bound, readers extract.
use crate::engine::{call, Ctx, Scenario, Violation};
use crate::medium::{self, Damage};
use crate::net::Queue;
use crate::refmodel::{self as model, Matrix};
use crate::rng::{hash_bytes, mix, Rng};
use ndarray::Array2;
use serde::{Deserialize, Serialize};

pub struct Embedding;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    images: Vec<Picture>,
    deliveries: Vec<Delivery>,
}

#[derive(Serialize, Deserialize)]
pub struct Picture {
    at: u64,
    rows: u64,
    cols: u64,
    levels: u64,
    /// in quarters
    depth4: u64,
    kind: u8,
    seed: u64,
    /// contrast, 0..=255; the range is centred unless `offset` moves it
    contrast: u64,
    offset: i64,
    length: u64,
    content: u64,
}

#[derive(Serialize, Deserialize)]
struct Delivery {
    image: u64,
    at: u64,
    copies: u64,
    damage: Damage,
}

enum Event {
    Mark(usize),
    Read(usize),
}

pub fn array(m: &Matrix) -> Array2<u8> {
    Array2::from_shape_vec([m.rows, m.cols], m.px.clone()).unwrap()
}

pub fn from_array(a: Array2<u8>) -> Matrix {
    let (rows, cols) = a.dim();
    Matrix { rows, cols, px: a.iter().cloned().collect() }
}

/// Range of the pixels that leaves room for embedding with this depth
pub fn range(depth: f64, levels: usize, contrast: u64, offset: i64) -> Option<(u8, u8)> {
    let head = 0.75 * depth / (1 << levels) as f64 + 1.;
    let (lo, hi) = (head.ceil() as i64, 255 - head.ceil() as i64);
    if lo > hi {
        return None;
    }
    let span = (contrast as i64).min(hi - lo);
    let slack = hi - lo - span;
    let start = lo + (slack / 2 + offset).clamp(0, slack);
    Some((start as u8, (start + span) as u8))
}

/// Sizes of the low-frequency area: capacities with each code and without
pub fn random_area(r: &mut Rng, big: bool) -> (usize, usize) {
    match r.below(10) {
        0 => r.pick(&[(16, 8), (8, 16), (32, 4), (4, 32)]),
        1 => r.pick(&[(16, 16), (8, 32), (32, 8)]),
        2 => r.pick(&[(32, 16), (16, 32), (32, 32), (16, 64), (64, 16)]),
        3 => r.pick(&[(64, 32), (32, 64), (64, 64), (32, 128), (128, 32), (128, 16)]),
        4 if big => r.pick(&[(64, 128), (128, 64), (96, 88), (91, 91), (128, 128)]),
        5 => (r.usize(9, 20), r.usize(9, 20)),
        6 => {
            let a = r.usize(3, 12);
            (a, 100 / a + r.usize(1, 20))
        }
        7 => {
            let a = r.usize(3, 12);
            (100 / a + r.usize(1, 20), a)
        }
        _ => (r.usize(9, 45), r.usize(9, 45)),
    }
}

impl Scenario for Embedding {
    type Plan = Plan;
    const RULE: &'static str = "a run marks 1..3 pictures (size, levels, depth, content, payload) and delivers them 1..6 times over a medium with explicit damage; it is non-trivial when a damaged image was read and the damage was within the tolerated bound";
    const REAL: &'static [&'static str] = &["embedding (embed, extract, try_extract)", "dwt", "encoding", "labrador-ldpc", "image (lossless containers)"];
    const STUBS: &'static [&'static str] = &["medium: pixel matrices damaged by the simulator", "clock: event queue"];
    const ASSUMPTIONS: &'static [&'static str] = &["damage is within the bound when, measured on the delivered image, every block's noise sums to less than 2^levels times (depth/4 - 2^levels/2) and at most two blocks of a code word are destroyed"];

    fn runs(&self) -> (u64, u64) {
        (5_000, 300_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let n = r.usize(1, 3);
        let mut images = vec![];
        for _ in 0..n {
            let levels = r.pick(&[1usize, 1, 2, 2, 3, 3, 4]);
            let (a, b) = random_area(r, levels < 4);
            let (a, b) = if levels == 4 { (a.min(32), b.min(32)) } else { (a, b) };
            // rarely far more blocks, or more levels, than usual
            let (levels, a, b) = match r.below(160) {
                0 => {
                    let (a, b) = r.pick(&[(256, 257), (272, 272), (181, 182), (128, 260), (300, 260), (64, 1160), (1160, 64), (16, 2100), (4700, 16), (16, 4700), (280, 270)]);
                    (1, a, b)
                }
                1 => (2, r.usize(100, 190), r.usize(100, 190)),
                2 => (5, r.usize(9, 20), r.usize(9, 20)),
                3 => (6, r.usize(9, 12), r.usize(9, 12)),
                _ => (levels, a, b),
            };
            let size = 1 << levels;
            let least = 2 * size + 2;
            let most = 150 * size; // three quarters of it over 2^levels are 113 grey levels
            let depth4 = match r.below(3) {
                0 => 4 * r.log(least, most.min(500)),
                1 => 4 * r.pick(&[20u64, 30, 50, 64, 100, 100, 128, 200]).clamp(least, most),
                _ => r.log(4 * least, 4 * most),
            };
            let room = model::room(a * b / 8).saturating_sub(2) as u64;
            let length = match r.below(6) {
                0 => 1,
                1 => room,
                3 if a * b > 30_000 => room,
                2 => 84,
                _ => 1 + r.below(room.max(1)),
            }
            .clamp(1, room.max(1));
            images.push(Picture {
                at: r.below(100),
                rows: (a as u64) << levels,
                cols: (b as u64) << levels,
                levels: levels as u64,
                depth4,
                kind: r.below(5) as u8,
                seed: r.u64() >> 40,
                contrast: r.below(256),
                offset: r.range(-100, 100),
                length,
                content: r.u64() >> 40,
            });
        }
        let mut deliveries = vec![];
        for _ in 0..r.usize(1, 6) {
            let i = r.below(n as u64) as usize;
            let p = &images[i];
            let (levels, depth) = (p.levels as usize, p.depth4 as f64 / 4.);
            let cap = ((p.rows >> levels) * (p.cols >> levels) / 8) as usize;
            let (bits, words) = model::code_for(cap).map_or((0, 1), |c| (c.n(), (p.length as usize + 4).div_ceil(c.k() / 8)));
            deliveries.push(Delivery { image: i as u64, at: 50 + r.below(300), copies: 1 + r.below(2), damage: medium::random_damage(r, depth, levels, bits, words) });
        }
        Plan { images, deliveries }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let mut q = Queue::new();
        for (i, p) in plan.images.iter().enumerate() {
            let b = 1u64 << p.levels.min(10);
            if p.levels == 0 || p.levels > 6 || p.rows % b != 0 || p.cols % b != 0 || p.rows * p.cols > 1 << 20 || p.rows == 0 || p.cols == 0 {
                ctx.invalid = true;
                return Ok(());
            }
            q.at(p.at, Event::Mark(i));
        }
        for (i, d) in plan.deliveries.iter().enumerate() {
            for c in 0..d.copies.min(3) {
                q.at(d.at + 77 * c, Event::Read(i));
            }
        }
        let mut marked: Vec<Option<Matrix>> = plan.images.iter().map(|_| None).collect();
        let payload = |p: &Picture| Rng::new(p.content).bytes(p.length.min(65535) as usize);
        while let Some(e) = q.next() {
            ctx.sim_us = q.now;
            match e {
                Event::Mark(i) => {
                    let p = &plan.images[i];
                    let (levels, depth) = (p.levels as usize, p.depth4 as f64 / 4.);
                    let (rows, cols) = (p.rows as usize, p.cols as usize);
                    let cap = (rows >> levels) * (cols >> levels) / 8;
                    let fits = p.length > 0 && p.length as usize + 2 <= model::room(cap) && cap >= 9;
                    let bounds = range(depth, levels, p.contrast, p.offset);
                    if !fits || bounds.is_none() || depth / 4. - (1 << levels) as f64 * 0.5 <= 1e-9 {
                        ctx.invalid = true;
                        continue;
                    }
                    let (lo, hi) = bounds.unwrap();
                    let source = Matrix { rows, cols, px: model::picture(cols, rows, p.seed, p.kind, lo, hi) };
                    let r = call(|| embedding::embed(array(&source), payload(p), depth, levels));
                    ctx.ev(format!("t={} mark image {}: {}x{} levels {} depth {} with {} bytes: {}", q.now, i, rows, cols, levels, depth, p.length, match &r {
                        Ok(a) => format!("{:x}", hash_bytes(a.as_slice().unwrap_or(&[]))),
                        Err(e) => e.chars().take(80).collect(),
                    }));
                    ctx.state(mix(mix(p.rows << 32 | p.cols, p.levels << 32 | p.depth4), p.length));
                    ctx.check(r.is_ok(), "embed-refused", || format!("{} bytes in {}x{} levels {}: {}", p.length, rows, cols, levels, r.clone().unwrap_err()))?;
                    marked[i] = r.ok().map(from_array);
                    let m = marked[i].as_ref().unwrap();
                    ctx.check(m.rows == rows && m.cols == cols, "dimensions-changed", || format!("{}x{} became {}x{}", rows, cols, m.rows, m.cols))?;
                }
                Event::Read(j) => {
                    let del = &plan.deliveries[j];
                    let i = del.image as usize % plan.images.len().max(1);
                    let (p, m) = match (plan.images.get(i), marked.get(i).and_then(|m| m.as_ref())) {
                        (Some(p), Some(m)) => (p, m),
                        _ => continue,
                    };
                    let (levels, depth) = (p.levels as usize, p.depth4 as f64 / 4.);
                    let cap = model::capacity(m, levels);
                    let code = model::code_for(cap);
                    let word_bits = code.map_or(0, |c| c.n());
                    let used = model::encode(&vec![0; p.length as usize + 2], cap).len() * 8;
                    let received = medium::travel(ctx, m, &del.damage, depth, levels, used, word_bits);
                    if del.copies > 1 {
                        ctx.fault("duplicate delivery");
                    }
                    let r = call(|| embedding::try_extract(array(&received), depth, levels));
                    ctx.ev(format!("t={} read image {} ({} pixels differ): {}", q.now, i, received.px.iter().zip(&m.px).filter(|(a, b)| a != b).count(), match &r {
                        Ok(Some(b)) => format!("{} bytes {:x}", b.len(), hash_bytes(b)),
                        Ok(None) => "nothing".into(),
                        Err(e) => format!("panic {}", e),
                    }));
                    ctx.state(mix(hash_bytes(&received.px), 3));
                    ctx.nontrivial |= received.px != m.px;
                    if m.rows != m.cols {
                        ctx.probe("image that is not square");
                    }
                    if code.is_none() {
                        ctx.probe("capacity without a code");
                    } else if word_bits > 0 && used > word_bits {
                        ctx.probe("several code words");
                    }
                    let expected = payload(p);
                    let ok = matches!(&r, Ok(Some(b)) if *b == expected);
                    ctx.check(ok, "data-lost", || format!("{}x{} levels {} depth {}: {} bytes came back as {:?}", p.rows, p.cols, levels, depth, expected.len(), r.as_ref().map(|o| o.as_ref().map(|b| b.len()))))?;
                    let r = call(|| embedding::extract(array(&received), depth, levels));
                    ctx.check(r.as_ref().ok() == Some(&expected), "data-lost", || format!("extract: {}x{} levels {} depth {}", p.rows, p.cols, levels, depth))?;
                }
            }
        }
        Ok(())
    }
}
