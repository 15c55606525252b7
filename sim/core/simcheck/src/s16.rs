//! C16: a fleet in which some nodes run the current code and some the independent implementation of
//! the published format; they mark, exchange and authenticate pictures and their parts.
use crate::engine::{call, Ctx, Scenario, Violation};
use crate::medium::{self, Damage};
use crate::net::Queue;
use crate::publish::{self, Publication};
use crate::refmodel::{self as model, Record};
use crate::rng::{hash_bytes, mix, Rng};
use crate::s02::{array, from_array, random_area};
use crate::s04::clear;
use image::GrayImage;
use ndarray::Array2;
use serde::{Deserialize, Serialize};

pub struct Fleet;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    publications: Vec<(bool, Publication)>,
    deliveries: Vec<Delivery>,
    parts: Vec<Part>,
}

#[derive(Serialize, Deserialize)]
struct Delivery {
    publication: u64,
    at: u64,
    /// the reader runs the current code
    current: bool,
    damage: Damage,
}

/// One part of the format on its own
#[derive(Serialize, Deserialize)]
struct Part {
    at: u64,
    /// 0 code stream, 1 embedding, 2 record, 3 quantizer, 4 features, 5 signature
    kind: u8,
    /// written by the current code, read by the other; or the other way round
    current: bool,
    seed: u64,
    a: u64,
    b: u64,
    levels: u64,
    depth4: u64,
    length: u64,
    flips: Vec<(u64, u64)>,
    damage: Damage,
}

enum Event {
    Publish(usize),
    Deliver(usize),
    Part(usize),
}

impl Scenario for Fleet {
    type Plan = Plan;
    const RULE: &'static str = "a run has 1..2 pictures marked by nodes of either release, 1..5 deliveries to nodes of either release over a damaging medium, and 2..8 exchanges of single parts of the format; it is non-trivial when something written by one implementation was read by the other";
    const REAL: &'static [&'static str] = &["watermarking (watermark_channel, authenticate_channel, records)", "embedding", "encoding", "image-features", "zernike", "three-bit-quantization", "signature", "utils"];
    const STUBS: &'static [&'static str] = &["other release: the reference model of the published format (no code shared but the LDPC and Ed25519 crates)", "medium: pictures damaged by the simulator"];
    const ASSUMPTIONS: &'static [&'static str] = &["the published format is that of the pinned commit after its repairs", "verdicts of the two are compared where no used block lies within 1e-6 of two bits' border and no feature within 1e-7 of a cell's border; feature values agree up to 1e-6 of their size"];

    fn runs(&self) -> (u64, u64) {
        (8_000, 300_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let mut again = Rng::new(r.clone().u64());
        let publications: Vec<(bool, Publication)> = (0..r.usize(1, 2)).map(|_| (r.chance(0.5), publish::repeated(&mut again, publish::random(r, false)))).collect();
        let deliveries = (0..r.usize(1, 4))
            .map(|_| {
                let i = r.below(publications.len() as u64);
                let (current, p) = &publications[i as usize];
                let (used, bits) = p.used();
                let mut damage = medium::random_damage(r, p.depth(), p.levels as usize, bits, if bits > 0 { used / bits } else { 1 });
                if r.chance(0.3) {
                    damage = Damage { container: damage.container, ..Damage::default() };
                } else if r.chance(0.5) {
                    damage.density = 1;
                }
                Delivery { publication: i, at: 1000 + r.below(1000), current: if r.chance(0.8) { !*current } else { *current }, damage }
            })
            .collect();
        let parts = (0..r.usize(2, 8))
            .map(|_| {
                let kind = r.pick(&[0u8, 0, 1, 1, 2, 3, 3, 4, 5]);
                let levels = r.pick(&[1u64, 1, 2, 3]);
                let (a, b) = match kind {
                    1 => {
                        let (a, b) = random_area(r, levels == 1);
                        (a as u64, b as u64)
                    }
                    4 => (r.log(1, 40), r.log(1, 40)),
                    _ => (if r.chance(0.5) { r.pick(&[16u64, 32, 64, 128, 256, 512, 1024]) } else { r.log(3, 1200) }, r.log(1, 85)),
                };
                // rarely sizes whose bits or blocks need more than 16 bits to count
                let (a, b, levels) = match kind {
                    0 if r.chance(0.06) => (if r.chance(0.4) { r.pick(&[8191u64, 8192, 8193, 16384, 32768, 65536, 131072]) } else { r.log(1200, 140_000) }, b, levels),
                    1 if r.chance(0.02) => (r.log(129, 600), r.log(129, 400), 1),
                    4 if r.chance(0.05) => (r.log(41, 160), r.log(41, 160), levels),
                    5 if r.chance(0.05) => (r.log(2000, 70_000), b, levels),
                    _ => (a, b, levels),
                };
                let room = model::room(if kind == 1 { a * b / 8 } else { a } as usize) as u64;
                let depth4 = r.log(8 << levels, 400);
                Part {
                    at: r.below(3000),
                    kind,
                    current: r.chance(0.5),
                    seed: r.u64() >> 40,
                    a,
                    b,
                    levels,
                    depth4: depth4.max(4 * (2 << levels) + 8),
                    length: 1 + r.below(room.saturating_sub(2).max(1)),
                    flips: (0..r.below(5)).map(|_| (r.below(8), r.below(8192))).collect(),
                    damage: medium::random_damage(r, depth4 as f64 / 4., levels as usize, 0, 1),
                }
            })
            .collect();
        Plan { publications, deliveries, parts }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        if plan.publications.iter().any(|(_, p)| !p.valid() || p.whole != 0) {
            ctx.invalid = true;
            return Ok(());
        }
        let mut q = Queue::new();
        for (i, (_, p)) in plan.publications.iter().enumerate() {
            q.at(p.at, Event::Publish(i));
        }
        for (i, d) in plan.deliveries.iter().enumerate() {
            q.at(d.at, Event::Deliver(i));
        }
        for (i, p) in plan.parts.iter().enumerate() {
            q.at(p.at, Event::Part(i));
        }
        let who = |c: bool| if c { "the current code" } else { "the other implementation" };
        let mut marked: Vec<Option<(GrayImage, Vec<f64>)>> = plan.publications.iter().map(|_| None).collect();
        while let Some(e) = q.next() {
            ctx.sim_us = q.now;
            match e {
                Event::Publish(i) => {
                    let (current, p) = &plan.publications[i];
                    let source = p.source(0);
                    let f = model::channel_features(&source, p.features as usize);
                    let out = if *current {
                        p.mark().map(|mut c| c.remove(0))
                    } else {
                        model::watermark_channel(&source, p.depth(), p.step(), p.features as usize, p.levels as usize).ok_or("no room".to_string())
                    };
                    ctx.ev(format!("t={} {} publishes {}: {}: {:?}", q.now, who(*current), i, p.text(), out.as_ref().map(|m| hash_bytes(m.as_raw()))));
                    ctx.check(out.is_ok(), "publishing-failed", || format!("{}: {}", p.text(), out.as_ref().unwrap_err()))?;
                    marked[i] = Some((out.unwrap(), f));
                }
                Event::Deliver(j) => {
                    let d = &plan.deliveries[j];
                    let i = d.publication as usize % plan.publications.len().max(1);
                    let ((writer, p), (m, original)) = match (plan.publications.get(i), marked.get(i).and_then(|m| m.as_ref())) {
                        (Some(p), Some(m)) => (p, m),
                        _ => continue,
                    };
                    let (used, bits) = p.used();
                    let (depth, levels, step, n) = (p.depth(), p.levels as usize, p.step(), p.features as usize);
                    let sent = publish::matrix(m);
                    let received = medium::travel(ctx, &sent, &d.damage, depth, levels, used, bits);
                    let image = model::channel(&received);
                    let verdict = if d.current { publish::authenticate(&image, depth, step, n, levels) } else { Ok(model::authenticate_channel(&image, depth, step, n, levels)) };
                    let worst = medium::worst_word(&sent, &received, depth, levels, used, bits);
                    let f = model::channel_features(&image, n);
                    let moved = f.iter().zip(original).map(|(a, b)| (a - b).abs() / step).fold(0., f64::max);
                    let plain = f.iter().chain(original).all(|x| clear(*x, step));
                    ctx.ev(format!("t={} {} reads {} of {}: {} bits in a word, features moved {:.4}: {:?}", q.now, who(d.current), i, who(*writer), worst, moved, verdict));
                    ctx.state(mix(hash_bytes(&received.px), 16));
                    if worst <= if bits > 0 { 2 } else { 0 } && moved < 1. - 1e-6 && plain {
                        ctx.nontrivial |= d.current != *writer;
                        ctx.probe(match (*writer, d.current) {
                            (true, false) => "picture of the current code read by the other",
                            (false, true) => "picture of the other read by the current code",
                            _ => "picture read by the same release",
                        });
                        ctx.check(verdict == Ok(true), "not-authentic", || format!("marked by {}, read by {}: {}: {:?}", who(*writer), who(d.current), p.text(), verdict))?;
                    } else if plain {
                        // whatever the verdict is, both have to give it
                        let pos = model::positions(&received, depth, levels);
                        let ties = pos.iter().take(p.capacity() * 8).any(|x| x.abs() < 1e-6 || x.abs() > 0.5 - 1e-6);
                        if !ties {
                            let other = if d.current { Ok(model::authenticate_channel(&image, depth, step, n, levels)) } else { publish::authenticate(&image, depth, step, n, levels) };
                            ctx.probe("verdicts compared");
                            ctx.nontrivial = true;
                            ctx.check(verdict == other, "verdicts-differ", || format!("{}: {:?} and {:?}", p.text(), verdict, other))?;
                        }
                    }
                }
                Event::Part(j) => self.part(&plan.parts[j], q.now, ctx)?,
            }
        }
        Ok(())
    }
}

impl Fleet {
    fn part(&self, p: &Part, now: u64, ctx: &mut Ctx) -> Result<(), Violation> {
        let mut r = Rng::new(p.seed);
        ctx.nontrivial = true;
        match p.kind % 6 {
            0 => {
                let cap = p.a.clamp(3, 140_000) as usize;
                let data = r.bytes(p.length.min(model::room(cap) as u64) as usize);
                let out = if p.current { call(|| encoding::encode(data.clone(), cap)) } else { Ok(model::encode(&data, cap)) };
                ctx.check(out.is_ok(), "writing-failed", || out.clone().unwrap_err())?;
                let mut stream = out.unwrap();
                if let Some(code) = model::code_for(cap) {
                    let words = stream.len() * 8 / code.n();
                    let mut used = vec![std::collections::BTreeSet::new(); words];
                    for (w, b) in &p.flips {
                        let (w, b) = (*w as usize % words.max(1), *b as usize % code.n());
                        if words > 0 && used[w].len() < 2 && used[w].insert(b) {
                            stream[w * code.n() / 8 + b / 8] ^= 0x80 >> (b % 8);
                            ctx.fault("bit flip");
                        }
                    }
                }
                stream.extend(r.bytes(p.b as usize % 50));
                let back = if p.current { Ok(model::decode(&stream, cap)) } else { call(|| encoding::try_decode(stream.clone(), cap)) };
                ctx.ev(format!("t={} code stream of {} bytes for {} current {}: {}", now, data.len(), cap, p.current, back == Ok(Some(data.clone()))));
                ctx.probe("code stream");
                ctx.state(mix(hash_bytes(&stream), 160));
                ctx.check(back == Ok(Some(data.clone())), "code-stream-unreadable", || format!("{} bytes for {}, written by the current code: {}: {:?}", data.len(), cap, p.current, back.map(|o| o.map(|b| b.len()))))
            }
            1 => {
                let levels = p.levels.clamp(1, 4) as usize;
                let (rows, cols) = ((p.a.min(600) as usize) << levels, (p.b.min(400) as usize) << levels);
                let depth = p.depth4 as f64 / 4.;
                let cap = (rows >> levels) * (cols >> levels) / 8;
                let bounds = crate::s02::range(depth, levels, 255 - p.seed % 256, 0);
                if cap < 9 || bounds.is_none() || depth / 4. - (1 << levels) as f64 * 0.5 <= 0.01 {
                    return Ok(());
                }
                let (lo, hi) = bounds.unwrap();
                let length = p.length.clamp(1, (model::room(cap) as u64).saturating_sub(2).max(1)) as usize;
                if length + 2 > model::room(cap) {
                    return Ok(());
                }
                let data = r.bytes(length);
                let m = model::Matrix { rows, cols, px: model::picture(cols, rows, p.seed, (p.seed % 5) as u8, lo, hi) };
                let out = if p.current { call(|| from_array(embedding::embed(array(&m), data.clone(), depth, levels))) } else { Ok(model::embed(&m, &data, depth, levels).unwrap()) };
                ctx.check(out.is_ok(), "writing-failed", || out.as_ref().err().unwrap().clone())?;
                let used = model::encode(&vec![0; length + 2], cap).len() * 8;
                let damage = Damage { destroyed: vec![], ..p.damage.clone() };
                let got = medium::travel(ctx, &out.unwrap(), &damage, depth, levels, used, 0);
                let back = if p.current { Ok(model::extract(&got, depth, levels)) } else { call(|| embedding::try_extract(array(&got), depth, levels)) };
                ctx.ev(format!("t={} {} bytes in {}x{} levels {} depth {} current {}: {}", now, length, rows, cols, levels, depth, p.current, back == Ok(Some(data.clone()))));
                ctx.probe("embedded data");
                ctx.state(mix(hash_bytes(&got.px), 161));
                ctx.check(back == Ok(Some(data.clone())), "embedded-data-unreadable", || format!("{} bytes in {}x{} levels {} depth {}, written by the current code: {}: {:?}", length, rows, cols, levels, depth, p.current, back.map(|o| o.map(|b| b.len()))))
            }
            2 => {
                use watermarking::sim_hooks::{deserialize, Watermark};
                let bits: Vec<bool> = (0..p.b.min(255)).map(|_| r.chance(0.5)).collect();
                let rec = Record { bits: bits.len(), perturbation: model::pack(&bits), signature: r.bytes(p.a.min(255) as usize), text: "Grüße 🌊".as_bytes()[..].to_vec() };
                ctx.probe("record");
                let mark = Watermark::new(bits.iter().collect(), rec.signature.clone(), String::from_utf8(rec.text.clone()).unwrap());
                let mut bytes = if p.current { call(|| mark.serialize()).unwrap_or_default() } else { model::record(&rec) };
                bytes.extend(r.bytes(p.length as usize % 20));
                ctx.state(mix(hash_bytes(&bytes), 162));
                if p.current {
                    let back = model::parse(&bytes);
                    ctx.check(back.as_ref() == Some(&rec), "record-unreadable", || format!("{:?} instead of {:?}", back, rec))
                } else {
                    let back = call(|| deserialize(&bytes));
                    ctx.check(back.as_ref().ok() == Some(&mark), "record-unreadable", || format!("{:?} instead of {:?}", back, mark))
                }
            }
            3 => {
                use three_bit_quantization::*;
                let n = p.b.clamp(1, 85) as usize;
                let step = r.pick(&[0.25, 0.5, 1., 1., 2., 3.7, 1.256]);
                let f: Vec<f64> = (0..n).map(|_| r.f() * 60. - 4.).collect();
                let e: Vec<f64> = f.iter().map(|x| x + (r.f() * 2. - 1.) * 0.999 * step).collect();
                let quantized = call(|| {
                    let (q, bits) = three_bit_quantization(&f, step);
                    (q, perturbation_vector_as_bytes(&bits))
                });
                ctx.probe("quantized features");
                ctx.state(mix(p.seed, 163));
                let (q, bits) = model::quantize(&f, step);
                let packed = model::pack(&bits);
                ctx.check(quantized.is_ok(), "writing-failed", || quantized.clone().unwrap_err())?;
                let (their_q, their_bytes) = quantized.unwrap();
                if p.current {
                    ctx.check(their_bytes.len() == packed.len(), "perturbation-unreadable", || format!("{} bytes instead of {}", their_bytes.len(), packed.len()))?;
                    let given: Vec<bool> = (0..3 * n).map(|i| their_bytes[i / 8] >> (i % 8) & 1 == 1).collect();
                    let back = model::restore(&e, &given, step);
                    ctx.check(back == their_q && their_q == q, "perturbation-unreadable", || format!("step {}: {:?} restored as {:?}", step, their_q, back))
                } else {
                    let back = call(|| three_bit_dequantization(&e, &perturbation_vector_from_bytes(&packed, 3 * n), step));
                    ctx.check(back.as_ref() == Ok(&q), "perturbation-unreadable", || format!("step {}: {:?} restored as {:?}", step, q, back))
                }
            }
            4 => {
                use image_features::{calculate_features, feature_types::FeaturesType};
                let (w, h) = (p.a.clamp(2, 160) as usize, p.b.clamp(2, 160) as usize);
                let n = 1 + p.length as usize % 11;
                let px = model::picture(w, h, p.seed, (p.seed % 5) as u8, (p.seed % 100) as u8, 255 - (p.depth4 % 100) as u8);
                let a = call(|| calculate_features(&Array2::from_shape_vec([w, h], px.clone()).unwrap(), FeaturesType::MomentsZernike, n));
                let b = model::features(&px, w, h, n);
                ctx.probe("features");
                ctx.state(mix(hash_bytes(&px), 164));
                let same = a.as_ref().map_or(false, |a| a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| (x - y).abs() <= 1e-6 * (1. + y.abs())));
                ctx.check(same, "features-differ", || format!("{} features of {}x{}: {:?} instead of {:?}", n, w, h, a, b))
            }
            _ => {
                let private = r.bytes(32);
                let public = model::public_of(&private);
                let message = r.bytes(p.a.min(70_000) as usize);
                ctx.probe("signature");
                ctx.state(mix(p.seed, 165));
                if p.current {
                    let s = call(|| sia_signature::sign(&message, &model::hex(&private), &model::hex(&public)));
                    ctx.check(s.as_ref().map_or(false, |s| model::verify(&message, s, &public)), "signature-unreadable", || format!("message of {} bytes: {:?}", message.len(), s))
                } else {
                    let s = model::sign(&message, &private);
                    let v = call(|| sia_signature::verify(&message, &s, &model::hex(&public)));
                    ctx.check(v == Ok(true), "signature-unreadable", || format!("message of {} bytes: {:?}", message.len(), v))
                }
            }
        }
    }
}
