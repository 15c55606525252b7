//! C01: writers encode data onto carriers, the carriers age (bits flip, unused space is overwritten),
//! readers decode them in any order, repeatedly, also after a restart of the process's only state.
use crate::engine::{call, Ctx, Scenario, Violation};
use crate::net::Queue;
use crate::refmodel as model;
use crate::rng::{hash_bytes, mix, Rng};
use serde::{Deserialize, Serialize};

pub struct Codec;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    streams: Vec<Stream>,
    deliveries: Vec<Delivery>,
}

#[derive(Serialize, Deserialize)]
struct Stream {
    at: u64,
    capacity: u64,
    length: u64,
    content: u64,
}

#[derive(Serialize, Deserialize)]
struct Delivery {
    stream: u64,
    at: u64,
    copies: u64,
    /// (codeword, bit)
    flips: Vec<(u64, u64)>,
    filler: u64,
    filler_seed: u64,
}

fn data(length: u64, content: u64) -> Vec<u8> {
    let mut r = Rng::new(content);
    match content % 5 {
        0 => vec![0; length as usize],
        1 => vec![255; length as usize],
        2 => (0..length).map(|i| i as u8).collect(),
        _ => r.bytes(length as usize),
    }
}

enum Event {
    Write(usize),
    Read(usize),
}

const BITS: [u64; 5] = [128, 256, 512, 2048, 8192];

impl Scenario for Codec {
    type Plan = Plan;
    const RULE: &'static str = "a run has 1..4 carriers (capacity, data length, content) and 1..10 deliveries with explicit bit flips, filler and order; it is non-trivial when at least one delivered stream had flipped bits or filler and was decoded";
    const REAL: &'static [&'static str] = &["encoding (encode, decode, try_decode)", "labrador-ldpc"];
    const STUBS: &'static [&'static str] = &["carrier: byte vectors damaged by the simulator", "clock: event queue"];
    const ASSUMPTIONS: &'static [&'static str] = &["that the codes' bit-flipping decoder corrects every two errors was enumerated once over all pairs of positions of TC128, TC256, TC512 and TM2048, and of TM8192 up to the code's cyclic symmetry"];

    fn runs(&self) -> (u64, u64) {
        (8_000, 600_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let n = r.usize(1, 4);
        let mut streams = vec![];
        for _ in 0..n {
            let capacity = match r.below(10) {
                0..=4 => r.pick(&[16u64, 32, 64, 128, 256, 512, 1024, 4096]),
                5 => r.pick(&[1u64, 2, 15, 17, 31, 33, 63, 65, 96, 127, 129, 192, 255, 257, 511, 513, 700, 1023, 1025, 2047, 2049]),
                6 | 7 => r.log(1, 1023),
                _ => r.log(1024, 9000),
            };
            let room = model::room(capacity as usize) as u64;
            let length = match r.below(10) {
                0 => 0,
                1 => room,
                2 => room.saturating_sub(1),
                3 => r.pick(&[1u64, 2, 3, 6, 7, 8, 14, 30, 126, 254, 255, 256, 257, 510, 512]).min(room),
                4 if r.chance(0.25) => r.pick(&[65533u64, 65534, 65535, 65536, 65537, 70000]),
                4 => r.below(4 * room + 40).min(3000),
                _ => r.below(room + 1),
            };
            // capacities and lengths of far more than everyday sizes
            let (capacity, length) = if r.chance(0.006) {
                let capacity = if r.chance(0.4) { r.pick(&[8191u64, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 65552, 65600, 65664, 131072, 262144 + 16, 524288]) } else { r.log(9000, 600_000) };
                let length = match r.below(4) {
                    0 => r.log(1, 65535),
                    1 => r.pick(&[4096u64, 8190, 16384, 32766, 32767, 32768, 32769, 40000]),
                    _ => r.log(1, 3000),
                };
                (capacity, length)
            } else {
                (capacity, length)
            };
            // the smallest code would need thousands of words for that
            let capacity = if length > 60000 { capacity.max(1024) } else { capacity };
            streams.push(Stream { at: r.below(1000), capacity, length, content: r.u64() >> 32 });
        }
        let mut deliveries = vec![];
        for _ in 0..r.usize(1, 10) {
            let s = r.below(n as u64);
            let st = &streams[s as usize];
            let words = match model::code_for(st.capacity as usize) {
                Some(code) => (st.length + 2).div_ceil(code.k() as u64 / 8).max(1),
                None => 1,
            };
            let bits = model::code_for(st.capacity as usize).map_or(0, |c| c.n() as u64);
            let mut flips = vec![];
            if bits > 0 {
                let style = r.below(6);
                for w in 0..words.min(40) {
                    let w = if words > 40 { r.below(words) } else { w };
                    let count = match style {
                        0 => 0,
                        1 => 2,
                        2 => r.below(3),
                        3 if r.chance(0.3) => r.below(12),
                        3 => r.below(2),
                        4 => r.below(5),
                        _ => (r.chance(0.5)) as u64,
                    };
                    let base = r.below(bits);
                    for i in 0..count {
                        flips.push((w, if style == 1 && r.chance(0.5) { (base + i) % bits } else { r.below(bits) }));
                    }
                }
            }
            let longest = 2 * BITS[r.below(5) as usize] / 8;
            deliveries.push(Delivery {
                stream: s,
                at: r.below(3000),
                copies: 1 + r.below(2),
                flips,
                filler: if r.chance(0.6) { r.log(1, longest) } else { 0 },
                filler_seed: r.u64() >> 40,
            });
        }
        Plan { streams, deliveries }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let mut q = Queue::new();
        for (i, s) in plan.streams.iter().enumerate() {
            if s.length > 200_000 || s.capacity > 1 << 20 {
                ctx.invalid = true;
                return Ok(());
            }
            q.at(s.at, Event::Write(i));
        }
        for (i, d) in plan.deliveries.iter().enumerate() {
            for c in 0..d.copies.min(4) {
                q.at(d.at + c * 777, Event::Read(i));
            }
        }
        let mut carriers: Vec<Option<Vec<u8>>> = plan.streams.iter().map(|_| None).collect();
        while let Some(e) = q.next() {
            ctx.sim_us = q.now;
            match e {
                Event::Write(i) => {
                    let s = &plan.streams[i];
                    let d = data(s.length, s.content);
                    let r = call(|| encoding::encode(d.clone(), s.capacity as usize));
                    ctx.ev(format!("t={} write stream {} of {} bytes, capacity {}: {}", q.now, i, s.length, s.capacity, match &r {
                        Ok(b) => format!("{} bytes {:x}", b.len(), hash_bytes(b)),
                        Err(e) => format!("refused ({})", e.chars().take(60).collect::<String>()),
                    }));
                    ctx.state(mix(s.capacity << 20 | s.length, 1));
                    if d.len() > 65535 {
                        ctx.probe("too long data");
                        ctx.check(r.is_err(), "too-long-data-accepted", || format!("{} bytes were encoded for capacity {}", d.len(), s.capacity))?;
                    } else {
                        ctx.check(r.is_ok(), "encode-refused", || format!("{} bytes, capacity {}: {}", d.len(), s.capacity, r.clone().unwrap_err()))?;
                        carriers[i] = r.ok();
                    }
                }
                Event::Read(j) => {
                    let del = &plan.deliveries[j];
                    let i = del.stream as usize % plan.streams.len().max(1);
                    let s = match plan.streams.get(i) {
                        Some(s) => s,
                        None => continue,
                    };
                    let mut bytes = match &carriers[i] {
                        Some(b) => b.clone(),
                        None => {
                            ctx.ev(format!("t={} read {} before it is written", q.now, i));
                            continue;
                        }
                    };
                    let clean = bytes.clone();
                    let code = model::code_for(s.capacity as usize);
                    let expected = data(s.length, s.content);
                    // flips: per word, with the actual bits after overlapping ones cancel out
                    let mut worst = 0;
                    let mut decodable = true;
                    if let Some(code) = code {
                        let n = code.n() / 8;
                        let words = bytes.len() / n;
                        if words * n != bytes.len() || words == 0 {
                            ctx.check(false, "stream-length", || format!("{} bytes are not whole code words of {}", bytes.len(), n))?;
                        }
                        for (w, b) in &del.flips {
                            let (w, b) = (*w as usize % words, *b as usize % code.n());
                            bytes[w * n + b / 8] ^= 128 >> (b % 8);
                        }
                        for w in 0..words {
                            let (x, y) = (&bytes[w * n..w * n + n], &clean[w * n..w * n + n]);
                            let d: u32 = x.iter().zip(y).map(|(a, b)| (a ^ b).count_ones()).sum();
                            ctx.fault_n("bit flip", d as u64);
                            if d > 2 {
                                ctx.probe("codeword with more than two flips");
                                // what the decoder itself makes of it
                                decodable &= model::decode_word(code, x) == model::decode_word(code, y);
                            } else if d == 2 {
                                ctx.probe("codeword with two flips");
                            }
                            worst = worst.max(d);
                        }
                    }
                    let coded = bytes.len();
                    if del.filler > 0 && del.filler < 100_000 {
                        bytes.extend(Rng::new(del.filler_seed).bytes(del.filler as usize));
                        ctx.fault("bytes after the stream");
                    }
                    if del.copies > 1 {
                        ctx.fault("duplicate delivery");
                    }
                    let r = call(|| encoding::try_decode(bytes.clone(), s.capacity as usize));
                    let r2 = if decodable { Some(call(|| encoding::decode(bytes.clone(), s.capacity as usize))) } else { None };
                    ctx.ev(format!("t={} read stream {} ({} coded + {} filler bytes, at most {} flips a word, decodable {}): {}", q.now, i, coded, del.filler, worst, decodable, match &r {
                        Ok(Some(b)) => format!("{} bytes {:x}", b.len(), hash_bytes(b)),
                        Ok(None) => "nothing".into(),
                        Err(e) => format!("panic {}", e),
                    }));
                    ctx.state(mix(s.capacity << 20 | s.length, mix(worst as u64 + 2, del.filler)));
                    if code.is_none() && s.length > 0 {
                        ctx.probe("uncoded stream");
                    }
                    ctx.check(r.is_ok(), "decode-panic", || format!("try_decode panics: {}", r.clone().unwrap_err()))?;
                    if decodable {
                        ctx.nontrivial |= worst > 0 || del.filler > 0;
                        if worst > 2 {
                            ctx.probe("more than two flips, corrected");
                        }
                        let got = r.unwrap();
                        ctx.check(got.as_ref() == Some(&expected), "data-lost", || format!("capacity {}, {} bytes, at most {} flips a word, {} filler bytes: decoded {:?} bytes", s.capacity, expected.len(), worst, del.filler, got.as_ref().map(|g| g.len())))?;
                        let got2 = r2.unwrap();
                        ctx.check(got2.as_ref().ok() == Some(&expected), "data-lost", || format!("decode: capacity {}, {} bytes, at most {} flips a word: {:?}", s.capacity, expected.len(), worst, got2.as_ref().map(|g| g.len())))?;
                    }
                }
            }
        }
        Ok(())
    }
}
