//! C04: publishers watermark pictures, the medium carries, damages, repeats and reorders them,
//! verifiers - some of them freshly restarted - authenticate them.
use crate::engine::{in_fresh_process, Ctx, Scenario, Violation};
use crate::medium::{self, Damage};
use crate::net::Queue;
use crate::publish::{self, Publication};
use crate::refmodel as model;
use crate::rng::{hash_bytes, mix, Rng};
use image::GrayImage;
use serde::{Deserialize, Serialize};

pub struct Tolerance;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    publications: Vec<Publication>,
    deliveries: Vec<Delivery>,
}

#[derive(Serialize, Deserialize)]
struct Delivery {
    publication: u64,
    channel: u64,
    at: u64,
    copies: u64,
    restarted: bool,
    damage: Damage,
}

enum Event {
    Publish(usize),
    Verify(usize),
}

/// The value is in the same cell whatever the last bits of the arithmetic are
pub fn clear(x: f64, step: f64) -> bool {
    let c = x / step;
    c < 0.5 || (c - c.round()).abs() > 1e-7 * c.abs().max(1.)
}

impl Scenario for Tolerance {
    type Plan = Plan;
    const RULE: &'static str = "a run publishes 1..2 pictures and delivers their channels 1..6 times over a medium with explicit damage, repetition and verifier restarts; it is non-trivial when a delivery was damaged within the tolerated bounds and its verdict checked";
    const REAL: &'static [&'static str] = &["watermarking (watermark, watermark_channel, authenticate_channel)", "embedding", "encoding", "image-features", "zernike", "three-bit-quantization", "signature", "utils", "imageproc", "dwt", "labrador-ldpc", "ed25519-dalek", "image (lossless containers)"];
    const STUBS: &'static [&'static str] = &["medium: pixel matrices damaged by the simulator", "clock: event queue", "verifier restart: the verdict is computed in a fresh copy of the process"];
    const ASSUMPTIONS: &'static [&'static str] = &["whether a delivery is within the bounds is measured on the delivered picture by the reference model: at most two changed blocks per code word (none without a code) and every feature less than one step from that of the published picture", "published pictures leave room for the embedding depth at both ends of the range"];

    fn runs(&self) -> (u64, u64) {
        (4_000, 150_000)
    }

    fn plan(&self, r: &mut Rng, index: u64, _thorough: bool) -> Plan {
        let mut again = Rng::new(r.clone().u64());
        let whole = index % 41 == 7;
        let n = if whole { 1 } else { r.usize(1, 2) };
        let publications: Vec<Publication> = (0..n).map(|_| publish::random(r, whole)).map(|p| publish::repeated(&mut again, p)).collect();
        let mut deliveries = vec![];
        for _ in 0..r.usize(1, 5) {
            let i = r.below(n as u64) as usize;
            let p = &publications[i];
            let (used, bits) = p.used();
            let mut damage = medium::random_damage(r, p.depth(), p.levels as usize, bits, if bits > 0 { used / bits } else { 1 });
            if r.chance(0.15) {
                damage = Damage { container: damage.container, ..Damage::default() };
            }
            if r.chance(0.5) {
                damage.density = 1;
            }
            if !damage.destroyed.is_empty() && r.chance(0.6) {
                damage.noise = 0;
            }
            deliveries.push(Delivery { publication: i as u64, channel: r.below(3), at: 500 + r.below(3000), copies: 1 + r.below(2), restarted: r.chance(0.25), damage });
        }
        Plan { publications, deliveries }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        if plan.publications.iter().any(|p| !p.valid()) {
            ctx.invalid = true;
            return Ok(());
        }
        let mut q = Queue::new();
        for (i, p) in plan.publications.iter().enumerate() {
            q.at(p.at, Event::Publish(i));
        }
        for (i, d) in plan.deliveries.iter().enumerate() {
            for c in 0..d.copies.min(3) {
                q.at(d.at + 91 * c, Event::Verify(i));
            }
        }
        let mut marked: Vec<Vec<(GrayImage, Vec<f64>)>> = plan.publications.iter().map(|_| vec![]).collect();
        while let Some(e) = q.next() {
            ctx.sim_us = q.now;
            match e {
                Event::Publish(i) => {
                    let p = &plan.publications[i];
                    let r = p.mark();
                    ctx.ev(format!("t={} publish {}: {} -> {}", q.now, i, p.text(), match &r {
                        Ok(c) => c.iter().map(|c| format!("{:x} ", hash_bytes(c.as_raw()))).collect::<String>(),
                        Err(e) => e.chars().take(100).collect(),
                    }));
                    ctx.check(r.is_ok(), "publishing-failed", || format!("{}: {}", p.text(), r.as_ref().unwrap_err()))?;
                    let channels = r.unwrap();
                    for (c, m) in channels.into_iter().enumerate() {
                        ctx.check(m.dimensions() == (p.width as u32, p.height as u32), "dimensions-changed", || format!("{:?}", m.dimensions()))?;
                        let f = model::channel_features(&p.source(c as u64), p.features as usize);
                        marked[i].push((m, f));
                    }
                }
                Event::Verify(j) => {
                    let d = &plan.deliveries[j];
                    let i = d.publication as usize % plan.publications.len().max(1);
                    let (p, channels) = match (plan.publications.get(i), marked.get(i)) {
                        (Some(p), Some(c)) if !c.is_empty() => (p, c),
                        _ => continue,
                    };
                    let (m, original) = &channels[d.channel as usize % channels.len()];
                    let (used, bits) = p.used();
                    let (depth, levels, step) = (p.depth(), p.levels as usize, p.step());
                    let sent = publish::matrix(m);
                    let received = medium::travel(ctx, &sent, &d.damage, depth, levels, used, bits);
                    let image = model::channel(&received);
                    if d.copies > 1 {
                        ctx.fault("duplicate delivery");
                    }
                    let verdict = if d.restarted {
                        ctx.fault("verifier restart");
                        in_fresh_process(|| match p.verify(&image) {
                            Ok(v) => vec![v as u8],
                            Err(e) => e.into_bytes(),
                        })
                        .and_then(|b| match b.as_slice() {
                            [1] => Ok(true),
                            [0] => Ok(false),
                            _ => Err(String::from_utf8_lossy(&b).into()),
                        })
                    } else {
                        p.verify(&image)
                    };
                    let worst = medium::worst_word(&sent, &received, depth, levels, used, bits);
                    let f = model::channel_features(&image, p.features as usize);
                    let moved = f.iter().zip(original).map(|(a, b)| (a - b).abs() / step).fold(0., f64::max);
                    let bits_ok = worst <= if bits > 0 { 2 } else { 0 };
                    let features_ok = moved < 1. - 1e-6 && f.iter().chain(original).all(|x| clear(*x, step));
                    let damaged = received.px != sent.px;
                    ctx.ev(format!("t={} verify {} channel {}: {} pixels differ, {} bits in a word, features moved {:.4} steps: {:?}", q.now, i, d.channel, received.px.iter().zip(&sent.px).filter(|(a, b)| a != b).count(), worst, moved, verdict));
                    ctx.state(mix(hash_bytes(&received.px), 4));
                    if bits_ok && features_ok {
                        ctx.probe("tolerable delivery");
                        if damaged {
                            ctx.probe("tolerable damage");
                            ctx.nontrivial = true;
                        }
                        if moved > 0.5 {
                            ctx.probe("a feature moved more than half a step");
                        }
                        if model::quantize(&f, step).0 != model::quantize(original, step).0 {
                            ctx.probe("a feature left its cell");
                        }
                        if bits > 0 && worst == 2 {
                            ctx.probe("two bits of a code word changed");
                        }
                        if p.whole > 0 {
                            ctx.probe("whole image");
                        }
                        ctx.check(verdict == Ok(true), "not-authentic", || format!("{}: damaged {} bits {} features moved {:.4} steps: {:?}", p.text(), damaged, worst, moved, verdict))?;
                    } else {
                        ctx.probe(if !bits_ok { "too many bits" } else { "features moved too far" });
                    }
                }
            }
        }
        Ok(())
    }
}
