//! C03: publishers store the quantized features' perturbation bits as bytes, verifiers measure the
//! features with errors and restore the integers.
use crate::engine::{call, Ctx, Scenario, Violation};
use crate::net::Queue;
use crate::rng::{hash_str, mix, Rng};
use serde::{Deserialize, Serialize};
use three_bit_quantization::{perturbation_vector_as_bytes, perturbation_vector_from_bytes, three_bit_dequantization, three_bit_quantization};

pub struct Quantizer;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    records: Vec<Rec>,
    measurements: Vec<Measurement>,
}
#[derive(Serialize, Deserialize)]
struct Rec {
    at: u64,
    step: f64,
    features: Vec<f64>,
}
#[derive(Serialize, Deserialize)]
struct Measurement {
    record: u64,
    at: u64,
    /// error of each feature in steps
    errors: Vec<f64>,
    padding: bool,
    extra: Vec<u8>,
}

enum Event {
    Publish(usize),
    Measure(usize),
}

const STEPS: [f64; 12] = [0.03, 0.125, 0.25, 0.5, 1.0, 1.0, 1.0, 1.256, 2.0, 3.7, 10.0, 4096.0];

/// Whether all sums of features and sixteenths of steps are exact
fn errors_on_grid(p: &Rec) -> bool {
    p.step.log2().fract() == 0. && p.features.iter().all(|f| (f / p.step * 16.).fract() == 0.)
}

impl Scenario for Quantizer {
    type Plan = Plan;
    const RULE: &'static str = "a run publishes 1..3 feature vectors and measures them 1..6 times with explicit errors; it is non-trivial when a measurement moved at least one feature into another cell";
    const REAL: &'static [&'static str] = &["three-bit-quantization"];
    const STUBS: &'static [&'static str] = &["measurement noise and record storage", "clock: event queue"];
    const ASSUMPTIONS: &'static [&'static str] = &["errors closer than 1e-6 steps to 1 and 1.5 steps are left out, except exact ones on exactly representable grids; vectors with a value within 1e-9 of a border between cells only count when step, feature and measurement are exact binary fractions"];

    fn runs(&self) -> (u64, u64) {
        (200_000, 8_000_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let n = r.usize(1, 3);
        let records: Vec<Rec> = (0..n)
            .map(|_| {
                if r.chance(0.12) {
                    // huge integers, on a binary grid, where the arithmetic is exact
                    let step = 2f64.powi(r.range(-30, 30) as i32);
                    let most = 1i64 << r.range(8, 48);
                    let len = r.usize(1, 12);
                    return Rec { at: r.below(100), step, features: (0..len).map(|_| r.range(-most, most) as f64 / 16. * step).collect() };
                }
                let step = if r.chance(0.8) { r.pick(&STEPS) } else { (r.f() * 8. - 4.).exp() };
                let len = match r.below(4) {
                    0 => r.usize(0, 3),
                    1 => 11,
                    2 if r.chance(0.04) => r.log(85, 3000) as usize,
                    2 => r.usize(1, 85),
                    _ => r.usize(1, 12),
                };
                let style = r.below(4);
                let features = (0..len)
                    .map(|_| match style {
                        0 => (r.f() - 0.5) * 20.,
                        1 => r.range(-40, 40) as f64 * step * 0.5,
                        2 => (r.f() - 0.2) * 400. * step,
                        _ => (r.f() - 0.5) * (r.f() * 12.).exp() * step,
                    })
                    .collect();
                Rec { at: r.below(100), step, features }
            })
            .collect();
        let measurements = (0..r.usize(1, 6))
            .map(|_| {
                let i = r.below(n as u64);
                let len = records[i as usize].features.len();
                let style = r.below(6);
                let big = r.below(len.max(1) as u64) as usize;
                let errors: Vec<f64> = (0..len)
                    .map(|k| {
                        let small = match style {
                            0 => 0.,
                            1 => (r.f() * 2. - 1.) * 0.999_998,
                            2 => r.pick(&[0.999_998, -0.999_998, 0.5, -0.5, 0.9, -0.9]),
                            3 => r.pick(&[0.75, -0.75, 0.875, -0.875, 0.5, -0.5, 0.0, 0.9375, -0.9375]),
                            _ => (r.f() * 2. - 1.) * 0.999_998,
                        };
                        if style >= 4 && (k == big || (style == 5 && r.chance(0.3))) {
                            let m = 1.500_002 + r.f() * r.pick(&[0.6, 3., 50.]);
                            if r.chance(0.5) {
                                m
                            } else {
                                -m
                            }
                        } else {
                            small
                        }
                    })
                    .collect();
                let exact = errors_on_grid(&records[i as usize]);
                let errors = errors.iter().map(|e: &f64| if !exact { *e } else if e.abs() < 1. { ((e * 16.).round() / 16.).clamp(-0.9375, 0.9375) } else { (e * 16.).round() / 16. + e.signum() / 16. }).collect();
                let extra = if r.chance(0.4) { r.usize(1, 20) } else { 0 };
                Measurement { record: i, at: 50 + r.below(200), errors, padding: r.chance(0.5), extra: r.bytes(extra) }
            })
            .collect();
        Plan { records, measurements }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let mut q = Queue::new();
        for (i, p) in plan.records.iter().enumerate() {
            let usual = p.step > 1e-4 && p.step < 1e5 && p.features.iter().all(|f| f.abs() / p.step < 1e6);
            let exact = errors_on_grid(p) && p.step > 1e-10 && p.step < 1e10 && p.features.iter().all(|f| f.abs() / p.step < 1e15);
            if !usual && !exact {
                ctx.invalid = true;
                return Ok(());
            }
            q.at(p.at, Event::Publish(i));
        }
        for (i, m) in plan.measurements.iter().enumerate() {
            q.at(m.at, Event::Measure(i));
        }
        let mut stored: Vec<Option<(Vec<i64>, Vec<u8>, usize)>> = plan.records.iter().map(|_| None).collect();
        while let Some(e) = q.next() {
            ctx.sim_us = q.now;
            match e {
                Event::Publish(i) => {
                    let p = &plan.records[i];
                    let r = call(|| {
                        let (quantized, bits) = three_bit_quantization(&p.features, p.step);
                        let bytes = perturbation_vector_as_bytes(&bits);
                        (quantized, bytes, bits.len())
                    });
                    ctx.ev(format!("t={} publish {} features, step {}: {:?}", q.now, p.features.len(), p.step, r));
                    ctx.check(r.is_ok(), "panic", || r.clone().unwrap_err())?;
                    let (quantized, bytes, bits) = r.unwrap();
                    ctx.check(quantized.len() == p.features.len() && bits == 3 * quantized.len() && bytes.len() == bits.div_ceil(8), "record-shape", || format!("{} features: {} integers, {} bits, {} bytes", p.features.len(), quantized.len(), bits, bytes.len()))?;
                    stored[i] = Some((quantized, bytes, bits));
                }
                Event::Measure(j) => {
                    let m = &plan.measurements[j];
                    let i = m.record as usize % plan.records.len().max(1);
                    let (p, (quantized, bytes, bits)) = match (plan.records.get(i), stored.get(i).and_then(|s| s.as_ref())) {
                        (Some(p), Some(s)) => (p, s),
                        _ => continue,
                    };
                    let measured: Vec<f64> = p.features.iter().enumerate().map(|(k, f)| f + m.errors.get(k).cloned().unwrap_or(0.) * p.step).collect();
                    let errors: Vec<f64> = measured.iter().zip(&p.features).map(|(a, b)| (a - b).abs() / p.step).collect();
                    let mut bytes = bytes.clone();
                    if m.padding && bits % 8 != 0 {
                        let last = bytes.len() - 1;
                        bytes[last] |= 0xffu8 << (bits % 8);
                        ctx.fault("padding bits set");
                    }
                    if !m.extra.is_empty() {
                        bytes.extend(&m.extra);
                        ctx.fault("bytes after the record");
                    }
                    let moved = measured.iter().zip(&p.features).filter(|(a, b)| (*a / p.step).floor() != (*b / p.step).floor()).count();
                    ctx.fault_n("feature moved to another cell", moved as u64);
                    ctx.nontrivial |= moved > 0;
                    let r = call(|| {
                        let given = perturbation_vector_from_bytes(&bytes, *bits);
                        three_bit_dequantization(&measured, &given, p.step)
                    });
                    ctx.ev(format!("t={} measure {} with errors up to {:.6}: {:?}", q.now, i, errors.iter().cloned().fold(0., f64::max), r));
                    ctx.state(mix(hash_str(&format!("{:?}", m.errors)), hash_str(&format!("{:?}", p.features))));
                    let worst = errors.iter().cloned().fold(0., f64::max);
                    ctx.check(r.is_ok(), "panic", || r.clone().unwrap_err())?;
                    let restored = r.unwrap();
                    // Where a value lies on a border between cells, up to the last bits of the
                    // arithmetic, its cell is not defined; on binary grids it is
                    let on_grid = |x: f64| (x / p.step * 16.).fract() == 0.;
                    let binary = p.step.log2().fract() == 0.;
                    let clear = |x: f64| {
                        let c = x / p.step;
                        (c - c.round()).abs() > 1e-9 * c.abs().max(1.)
                    };
                    let defined = measured.iter().zip(&p.features).all(|(m, f)| (clear(*m) && clear(*f)) || (binary && on_grid(*m) && on_grid(*f)));
                    if !defined {
                        ctx.probe("on a border between cells");
                    }
                    if worst < 1. - 1e-6 && defined {
                        ctx.check(restored == *quantized, "not-restored", || {
                            let k = (0..quantized.len()).find(|k| restored.get(*k) != Some(&quantized[*k])).unwrap_or(0);
                            format!("feature {} = {} step {} error {} steps: {:?} instead of {:?}", k, p.features.get(k).unwrap_or(&0.), p.step, errors.get(k).unwrap_or(&0.), restored.get(k), quantized.get(k))
                        })?;
                    }
                    for (k, e) in errors.iter().enumerate() {
                        // where integers are huge, sums are only exact on the grid
                        let huge = !(p.features[k].abs().max(measured[k].abs()) / p.step < 1e7);
                        if *e > 1.5 + 1e-6 && (!huge || (binary && on_grid(measured[k]) && on_grid(p.features[k]))) {
                            ctx.fault("error above one and a half steps");
                            ctx.check(restored.get(k) != Some(&quantized[k]), "wrongly-restored", || format!("feature {} = {} step {} measured as {} is restored to {}", k, p.features[k], p.step, measured[k], quantized[k]))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
