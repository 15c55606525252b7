//! C05: a key holder publishes pictures, adversaries and a broken medium produce everything else.
//! A ledger records what was published; whatever is reported authentic has to be near an entry.
use crate::engine::{in_fresh_process, Ctx, Scenario, Violation};
use crate::medium::{self, Damage};
use crate::net::Queue;
use crate::publish::{self, Publication};
use crate::refmodel::{self as model, Matrix, Record};
use crate::rng::{hash_bytes, mix, Rng};
use image::GrayImage;
use serde::{Deserialize, Serialize};

pub struct Forgery;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    publications: Vec<Publication>,
    attacks: Vec<Attack>,
}

#[derive(Serialize, Deserialize)]
struct Attack {
    at: u64,
    publication: u64,
    restarted: bool,
    #[serde(flatten)]
    what: What,
    /// the verifier's parameters when they differ: features, step in 1/64, depth in quarters, levels
    other: Vec<u64>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Target {
    seed: u64,
    kind: u8,
    contrast: u64,
    offset: i64,
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "what")]
enum What {
    /// noise, also beyond what is tolerated
    Damaged { damage: Damage },
    /// other content, every embedded bit intact: blocks shifted by whole depths
    Edited { style: u8, blocks: u64, seed: u64 },
    /// the bits of a publication in another picture
    Transplanted { target: Target },
    /// a record made for a picture without the private key
    Forged { target: Target, style: u8, seed: u64, as_published: bool },
    /// any bytes as data, code words or bits
    Garbage { target: Target, layer: u8, length: u64, seed: u64, header: u64 },
    /// cut, turned, enlarged, tiny
    Reshaped { style: u8, a: u64, b: u64 },
    /// a picture nobody marked
    Unmarked { target: Target },
    Genuine,
}

enum Event {
    Publish(usize),
    Attack(usize),
}

const OTHER_KEY: &str = "00112233445566778899aabbccddeeff00112233445566778899aabbccddee0f";

fn target(r: &mut Rng, p: &Publication) -> Target {
    if r.chance(0.3) {
        // the same scene with other contrast
        Target { seed: p.seed, kind: p.kind, contrast: r.below(256), offset: r.range(-60, 60) }
    } else {
        Target { seed: r.u64() >> 40, kind: r.below(5) as u8, contrast: r.below(256), offset: r.range(-60, 60) }
    }
}

fn picture(p: &Publication, t: &Target) -> GrayImage {
    Publication { seed: t.seed, kind: t.kind, contrast: t.contrast, offset: t.offset, ..p.clone() }.source(0)
}

/// What a forger may write where the text is, which nobody signs
fn text(r: &mut Rng) -> Vec<u8> {
    let length = r.log(1, 90) as usize - 1;
    let style = r.below(6);
    let chars = |r: &mut Rng, of: &[char]| (0..length).map(|_| of[r.below(of.len() as u64) as usize]).collect::<String>().into_bytes();
    match style {
        0 => r.bytes(length),
        1 => r.bytes(12),
        2 => chars(r, &['a', 'Z', ' ', '\u{e4}', '\u{df}', '\u{416}']),
        3 => chars(r, &['x', '\u{20ac}', '\u{4e2d}', '\u{1f600}', '\u{301}', '\u{feff}']),
        4 => chars(r, &['\0', '\n', '\r', '\u{1b}', '%', '{', '}', '"', '\\', '\u{202e}']),
        _ => vec![],
    }
}

fn forged_record(p: &Publication, target: &GrayImage, published: &Record, style: u8, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let n = p.features as usize;
    let (q, bits) = model::quantize(&model::channel_features(target, n), p.step());
    let mut rec = Record { bits: bits.len(), perturbation: model::pack(&bits), signature: published.signature.clone(), text: published.text.clone() };
    match style % 12 {
        0 => rec.signature = model::sign(&model::to_bytes(&q), &model::unhex(OTHER_KEY)),
        1 => {}
        2 => rec.perturbation = published.perturbation.clone(),
        3 => rec.signature = vec![0; 64],
        4 => rec.signature = r.bytes(64),
        5 => {
            // the wrong number of bits
            rec.bits = r.pick(&[0, 1, 3 * (n - 1), 3 * (n + 1), 3 * n - 1, 3 * n + 1, 255]);
            rec.perturbation = r.bytes(rec.bits.div_ceil(8));
        }
        6 => {
            let length = r.pick(&[0, 1, 31, 32, 63, 65, 128, 200, 255]);
            rec.signature = (0..length).map(|i| published.signature[i % 64]).collect();
        }
        7 => {
            let bit = r.below(512) as usize;
            rec.signature[bit / 8] ^= 1 << (bit % 8);
            rec.perturbation = published.perturbation.clone();
        }
        8 => {
            rec.perturbation = r.bytes(published.perturbation.len());
        }
        9 => rec.text = text(&mut r),
        10 => {
            // small-order point and zero scalar
            rec.signature = vec![0; 64];
            rec.signature[0] = 1;
        }
        _ => {
            // an equivalent signature: S plus the order of the group
            let l = model::unhex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
            let mut carry = 0u16;
            for i in 0..32 {
                let v = rec.signature[32 + i] as u16 + l[i] as u16 + carry;
                rec.signature[32 + i] = v as u8;
                carry = v >> 8;
            }
            rec.perturbation = published.perturbation.clone();
        }
    }
    if style / 12 == 3 {
        rec.text = text(&mut r);
    }
    let mut bytes = model::record(&rec);
    if style / 12 == 1 {
        // length fields that do not fit
        let i = r.below(3) as usize;
        bytes[i] = r.pick(&[0u8, 1, 63, 65, 128, 254, 255]);
    }
    if style / 12 == 2 {
        let cut = r.below(bytes.len() as u64 + 1) as usize;
        bytes.truncate(cut);
    }
    bytes
}

fn reshape(m: &Matrix, style: u8, a: u64, b: u64) -> Matrix {
    let pick = |rows: usize, cols: usize, f: &dyn Fn(usize, usize) -> u8| Matrix { rows, cols, px: (0..rows * cols).map(|i| f(i / cols, i % cols)).collect() };
    let at = |r: usize, c: usize| m.px.get((r % m.rows.max(1)) * m.cols + c % m.cols.max(1)).cloned().unwrap_or(0);
    let (a, b) = (a as usize, b as usize);
    match style % 7 {
        // some rows and columns are missing
        0 => pick(m.rows.saturating_sub(a), m.cols.saturating_sub(b), &at),
        1 => pick(m.rows.saturating_sub(a), m.cols.saturating_sub(b), &|r, c| at(r + a, c + b)),
        // turned, mirrored
        2 => pick(m.cols, m.rows, &|r, c| at(c, r)),
        3 => pick(m.rows, m.cols, &|r, c| at(m.rows - 1 - r, c)),
        // a small piece
        4 => pick(a % 9, b % 9, &at),
        5 => pick(a % 40, b % 40, &at),
        // enlarged
        _ => pick(m.rows + a % 17, m.cols + b % 17, &at),
    }
}

impl Scenario for Forgery {
    type Plan = Plan;
    const RULE: &'static str = "a run publishes 1..2 pictures and shows the verifier 2..8 others: damaged, edited under intact bits, transplanted, forged, garbled, reshaped or unmarked; it is non-trivial when at least one picture farther than one and a half steps from every publication, or one whose watermark is not a publication's, was judged";
    const REAL: &'static [&'static str] = &["watermarking (watermark_channel, authenticate_channel)", "embedding", "encoding", "image-features", "zernike", "three-bit-quantization", "signature", "utils"];
    const STUBS: &'static [&'static str] = &["adversaries and medium: pictures made with the reference model of the format", "clock: event queue"];
    const ASSUMPTIONS: &'static [&'static str] = &["the ledger holds the published features in steps, measured by the reference model; a picture is accepted rightly only if it has as many features and each, in steps, is within one and a half (and 1e-6) of a published one", "nobody but the simulated key holder knows the private key"];

    fn runs(&self) -> (u64, u64) {
        (4_000, 150_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let n = r.usize(1, 2);
        let publications: Vec<Publication> = (0..n)
            .map(|_| {
                let mut p = publish::random(r, false);
                if r.chance(0.5) {
                    p.step64 = r.log(2, 64);
                }
                p
            })
            .collect();
        let mut attacks = vec![];
        for _ in 0..r.usize(2, 7) {
            let i = r.below(n as u64) as usize;
            let p = &publications[i];
            let (used, bits) = p.used();
            let what = match r.below(14) {
                0..=2 => What::Damaged { damage: medium::random_damage(r, p.depth(), p.levels as usize, bits, if bits > 0 { used / bits } else { 1 }) },
                3 | 4 => What::Edited { style: r.below(5) as u8, blocks: r.log(1, 4000), seed: r.u64() >> 40 },
                5 | 6 => What::Transplanted { target: target(r, p) },
                7 | 8 => What::Forged { target: target(r, p), style: if r.chance(0.6) { r.below(12) } else { r.below(48) } as u8, seed: r.u64() >> 40, as_published: r.chance(0.4) },
                9 | 10 => What::Garbage { target: target(r, p), layer: r.below(4) as u8, length: r.log(1, 1200), seed: r.u64() >> 40, header: r.pick(&[0u64, 1, 2, 3, 79, 80, 81, 255, 256, 1000, 32768, 65534, 65535]) },
                11 => What::Reshaped { style: r.below(7) as u8, a: r.log(1, 40) - r.below(2), b: r.log(1, 40) - r.below(2) },
                12 => What::Unmarked { target: target(r, p) },
                _ => What::Genuine,
            };
            let mut other = vec![];
            if r.chance(0.15) {
                let style = r.below(4);
                other = vec![
                    if style == 0 { r.pick(&[1, 1, 2, 3, 4, 5]) } else { p.features },
                    if style == 1 { r.log(2, 64 * 24) } else { p.step64 },
                    if style == 2 { r.log(8, 480) } else { p.depth4 },
                    if style == 3 { r.pick(&[1, 2, 3]) } else { p.levels },
                ];
            }
            attacks.push(Attack { at: 1000 + r.below(3000), publication: i as u64, restarted: r.chance(0.1), what, other });
        }
        Plan { publications, attacks }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        if plan.publications.iter().any(|p| !p.valid() || p.whole != 0) {
            ctx.invalid = true;
            return Ok(());
        }
        let mut q = Queue::new();
        for (i, p) in plan.publications.iter().enumerate() {
            q.at(p.at, Event::Publish(i));
        }
        for (i, a) in plan.attacks.iter().enumerate() {
            q.at(a.at, Event::Attack(i));
        }
        // features in steps
        let mut ledger: Vec<(usize, Vec<f64>)> = vec![];
        let mut marked: Vec<Option<Matrix>> = plan.publications.iter().map(|_| None).collect();
        while let Some(e) = q.next() {
            ctx.sim_us = q.now;
            match e {
                Event::Publish(i) => {
                    let p = &plan.publications[i];
                    let r = p.mark();
                    ctx.ev(format!("t={} publish {}: {} -> {:?}", q.now, i, p.text(), r.as_ref().map(|c| hash_bytes(c[0].as_raw())).map_err(|e| e.chars().take(80).collect::<String>())));
                    ctx.check(r.is_ok(), "publishing-failed", || format!("{}: {}", p.text(), r.as_ref().unwrap_err()))?;
                    let f = model::channel_features(&p.source(0), p.features as usize);
                    ledger.push((i, f.iter().map(|x| x / p.step()).collect()));
                    marked[i] = Some(publish::matrix(&r.unwrap()[0]));
                }
                Event::Attack(j) => {
                    let a = &plan.attacks[j];
                    let i = a.publication as usize % plan.publications.len().max(1);
                    let (p, m) = match (plan.publications.get(i), marked.get(i).and_then(|m| m.as_ref())) {
                        (Some(p), Some(m)) => (p, m),
                        _ => continue,
                    };
                    let (depth, levels) = (p.depth(), p.levels as usize);
                    let (used, bits) = p.used();
                    let cap = p.capacity();
                    let data = || model::extract(m, depth, levels);
                    let (kind, shown) = match &a.what {
                        What::Genuine => ("genuine picture", m.clone()),
                        What::Damaged { damage } => {
                            let mut d = damage.clone();
                            // far beyond the budget: the block's bits are random then
                            if d.noise_seed % 3 == 0 {
                                d.rest = 1;
                            }
                            ("damaged picture", medium::travel(ctx, m, &d, depth, levels, used, bits))
                        }
                        What::Edited { style, blocks, seed } => {
                            let mut out = m.clone();
                            let b = 1usize << levels;
                            let (lr, lc) = (m.rows / b, m.cols / b);
                            let mut r = Rng::new(*seed);
                            let unit = (depth / b as f64).round() as i64;
                            let centre = r.below((lr * lc) as u64) as usize;
                            let radius = 1 + r.below(12) as i64;
                            for k in 0..(*blocks as usize).min(lr * lc) {
                                let blk = match style % 5 {
                                    0 => r.below((lr * lc) as u64) as usize,
                                    1 => k,
                                    2 => (centre + k) % (lr * lc),
                                    3 => {
                                        let (y, x) = ((centre / lc) as i64 + r.range(-radius, radius), (centre % lc) as i64 + r.range(-radius, radius));
                                        if y < 0 || x < 0 || y >= lr as i64 || x >= lc as i64 {
                                            continue;
                                        }
                                        y as usize * lc + x as usize
                                    }
                                    _ => lr * lc - 1 - k,
                                };
                                let k = r.pick(&[1i64, -1, 2, -2, 3, -3]);
                                let at = |e: usize| (blk / lc * b + e / b) * m.cols + blk % lc * b + e % b;
                                if (0..b * b).all(|e| (0..=255).contains(&(out.px[at(e)] as i64 + k * unit))) {
                                    for e in 0..b * b {
                                        out.px[at(e)] = (out.px[at(e)] as i64 + k * unit) as u8;
                                    }
                                }
                            }
                            ("edited picture with intact bits", out)
                        }
                        What::Transplanted { target } => {
                            let t = publish::matrix(&picture(p, target));
                            let stream = model::read_bytes(m, depth, levels);
                            let out = model::write_bytes(&t, &stream[..used / 8], depth, levels).unwrap_or(t);
                            ("watermark of another picture", out)
                        }
                        What::Forged { target, style, seed, as_published } => {
                            let t = if *as_published { p.source(0) } else { picture(p, target) };
                            let published = match data().and_then(|d| model::parse(&d)) {
                                Some(r) => r,
                                None => {
                                    // what is checked elsewhere; here the forger has nothing to copy
                                    ctx.probe("publication the reference cannot read");
                                    continue;
                                }
                            };
                            let rec = forged_record(p, &t, &published, *style, *seed);
                            let t = publish::matrix(&t);
                            let out = model::embed(&t, &rec, depth, levels).unwrap_or(t);
                            ("forged record", out)
                        }
                        What::Garbage { target, layer, length, seed, header } => {
                            let t = publish::matrix(&picture(p, target));
                            let mut bytes = Rng::new(*seed).bytes(*length as usize);
                            let stream = match layer % 4 {
                                0 => bytes,
                                1 => {
                                    // a plausible length in front
                                    let mut all = (*header as u16).to_be_bytes().to_vec();
                                    all.append(&mut bytes);
                                    let k = model::code_for(cap);
                                    match k {
                                        None => all,
                                        Some(_) => {
                                            // encode() puts a length in front; without it
                                            let coded = model::encode(&all[2..], cap);
                                            let code = k.unwrap();
                                            let mut first = all[..all.len().min(code.k() / 8)].to_vec();
                                            first.resize(code.k() / 8, 0);
                                            let mut word = vec![0; code.n() / 8];
                                            code.copy_encode(&first, &mut word);
                                            let mut out = word;
                                            out.extend(coded.into_iter().skip(code.n() / 8));
                                            out
                                        }
                                    }
                                }
                                2 => {
                                    let mut all = (*header as u16).to_le_bytes().to_vec();
                                    all.append(&mut bytes);
                                    all.truncate(model::room(cap));
                                    model::encode(&all, cap)
                                }
                                _ => {
                                    bytes.truncate(model::room(cap));
                                    model::encode(&bytes, cap)
                                }
                            };
                            let n = stream.len().min(cap);
                            let out = model::write_bytes(&t, &stream[..n], depth, levels).unwrap_or(t);
                            ("garbled watermark", out)
                        }
                        What::Reshaped { style, a, b } => ("picture of another shape", reshape(m, *style, *a, *b)),
                        What::Unmarked { target } => ("unmarked picture", publish::matrix(&picture(p, target))),
                    };
                    ctx.fault(kind);
                    if shown.rows > 1000 || shown.cols > 1000 {
                        continue;
                    }
                    let (n, step, vdepth, vlevels) = match a.other.as_slice() {
                        [n, s, d, l] if (1..=40).contains(n) && *s > 0 && *d > 0 && (1..=4).contains(l) => {
                            ctx.fault("verifier with other parameters");
                            (*n as usize, *s as f64 / 64., *d as f64 / 4., *l as usize)
                        }
                        _ => (p.features as usize, p.step(), depth, levels),
                    };
                    let image = model::channel(&shown);
                    let judge = || publish::authenticate(&image, vdepth, step, n, vlevels);
                    let verdict = if a.restarted {
                        ctx.fault("verifier restart");
                        in_fresh_process(|| match judge() {
                            Ok(v) => vec![v as u8],
                            Err(e) => e.into_bytes(),
                        })
                        .and_then(|b| match b.as_slice() {
                            [1] => Ok(true),
                            [0] => Ok(false),
                            _ => Err(String::from_utf8_lossy(&b).into()),
                        })
                    } else {
                        judge()
                    };
                    let empty = shown.rows == 0 || shown.cols == 0;
                    let f: Vec<f64> = if empty { vec![f64::NAN; n] } else { model::channel_features(&image, n).iter().map(|x| x / step).collect() };
                    let near = ledger
                        .iter()
                        .filter(|(_, l)| l.len() == n)
                        .map(|(_, l)| l.iter().zip(&f).map(|(a, b)| (a - b).abs()).fold(0., |a, b| if b.is_nan() { f64::INFINITY } else { f64::max(a, b) }))
                        .fold(f64::INFINITY, f64::min);
                    ctx.ev(format!("t={} judge {} {}x{}: {:.4} steps from a publication: {:?}", q.now, kind, shown.rows, shown.cols, near, verdict));
                    ctx.state(mix(hash_bytes(&shown.px), 5));
                    match &verdict {
                        Err(e) => ctx.check(false, "no-verdict", || format!("{} {}x{} levels {}: {}", kind, shown.rows, shown.cols, vlevels, e))?,
                        Ok(v) => {
                            if near >= 1.5 {
                                ctx.probe("farther than one and a half steps");
                                if near < 4. {
                                    ctx.probe("within one and a half and four steps");
                                }
                                ctx.nontrivial = true;
                            } else {
                                ctx.probe(if *v { "near, accepted" } else { "near, refused" });
                            }
                            ctx.check(!*v || near < 1.5 + 1e-6, "forgery-accepted", || format!("{} {}x{} ({}) is reported authentic, {:.4} steps from the nearest publication", kind, shown.rows, shown.cols, p.text(), near))?;
                        }
                    }
                    // Whoever lacks the key cannot make the record of a near picture either
                    if let What::Forged { style, as_published: true, .. } = &a.what {
                        if matches!(style, 0 | 3 | 4 | 6 | 7 | 10 | 11) && a.other.is_empty() {
                            ctx.probe("record without a valid signature");
                            ctx.nontrivial = true;
                            ctx.check(verdict == Ok(false), "forgery-accepted", || format!("a record with forged signature (style {}) is accepted", style))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
