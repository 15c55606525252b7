//! C07: writers append records to stores that tear writes, damage length fields and leave other
//! bytes behind; readers must get the record or nothing.
use crate::engine::{call, Ctx, Scenario, Violation};
use crate::refmodel::{self as model, Record};
use crate::rng::{hash_bytes, mix, Rng};
use crate::s02::array;
use bitvec::prelude::{BitVec, Lsb0};
use serde::{Deserialize, Serialize};
use watermarking::sim_hooks::{deserialize as read_watermark, Watermark};

pub struct Records;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    writes: Vec<Write>,
}

#[derive(Serialize, Deserialize)]
struct Write {
    /// 0 watermark record, 1 data block, 2 code stream, 3 data in a picture
    kind: u8,
    bits: u64,
    signature: u64,
    text: u64,
    /// bytes per character of the text
    wide: u64,
    length: u64,
    capacity: u64,
    seed: u64,
    /// bytes after the record
    rest: u64,
    /// (length field, its damaged value)
    damage: Vec<(u64, u64)>,
    rows: u64,
    cols: u64,
    /// where the write is torn; every place when empty and the record is short
    cuts: Vec<u64>,
}

fn text(bytes: u64, wide: u64, seed: u64) -> String {
    let (unit, width) = [("a", 1), ("é", 2), ("水", 3), ("🌊", 4)][wide as usize % 4];
    let mut s = String::new();
    while s.len() + width <= bytes as usize {
        s.push_str(unit);
    }
    while s.len() < bytes as usize {
        s.push((b'a' + (seed % 26) as u8) as char);
    }
    s
}

fn bitvec(bits: &[bool]) -> BitVec<u8, Lsb0> {
    bits.iter().collect()
}

fn cuts(w: &Write, n: usize) -> Vec<usize> {
    if w.cuts.is_empty() && n <= 700 {
        (0..n).collect()
    } else if n == 0 {
        vec![]
    } else {
        w.cuts.iter().map(|c| *c as usize % n).chain([0, 1, 2, 3, n - 1, n - 2].iter().cloned().filter(|c| *c < n)).collect()
    }
}

impl Scenario for Records {
    type Plan = Plan;
    const RULE: &'static str = "a run writes 1..4 records (watermark records, data blocks, code streams, data in pictures) and reads each one intact, followed by other bytes, torn at every byte (longer ones: at chosen bytes) and with damaged length fields; it is non-trivial when a torn or damaged record was read";
    const REAL: &'static [&'static str] = &["watermarking (records)", "embedding (data blocks, embed, try_extract)", "encoding", "three-bit-quantization (bits as bytes)"];
    const STUBS: &'static [&'static str] = &["store: byte strings torn and damaged by the simulator"];
    const ASSUMPTIONS: &'static [&'static str] = &["a length field damaged so that the record still lies within the bytes present cannot be told from an intact one", "refusal is an error, nothing or a panic, whatever the function offers"];

    fn runs(&self) -> (u64, u64) {
        (100_000, 3_000_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let edge = |r: &mut Rng, typical: u64| match r.below(6) {
            0 => r.pick(&[0u64, 1, 2, 127, 128, 254, 255]),
            1 => r.pick(&[256u64, 257, 300, 511, 512]),
            2 => r.below(256),
            _ => typical,
        };
        let writes = (0..r.usize(1, 4))
            .map(|_| {
                let kind = r.pick(&[0u8, 0, 0, 1, 1, 2, 2, 3]);
                let capacity = match r.below(3) {
                    0 => r.pick(&[16u64, 32, 64, 128, 256, 512, 1024]),
                    _ => r.log(9, 1100),
                };
                let room = model::room(capacity as usize) as u64;
                let (rows, cols) = (r.pick(&[18u64, 20, 32, 34, 40, 60, 64]), r.pick(&[18u64, 20, 32, 36, 44, 64, 128]));
                let cap = rows / 2 * (cols / 2) / 8;
                let space = model::room(cap as usize) as u64;
                let length = match kind {
                    1 if r.chance(0.1) => r.pick(&[65534u64, 65535, 65536, 65537, 131072]),
                    1 => r.pick(&[1u64, 2, 79, 80, 81, 255, 256, 257, 511]) + r.below(2) * r.below(200),
                    2 => r.below(room + 1),
                    // what fits, what just fits, what does not
                    _ => match r.below(4) {
                        0 => space.saturating_sub(2).max(1),
                        1 => space.saturating_sub(1).max(1),
                        2 => space + r.below(100),
                        _ => 1 + r.below(space),
                    },
                };
                let typical_bits = 3 * r.usize(0, 85) as u64;
                Write {
                    kind,
                    bits: edge(r, typical_bits),
                    signature: edge(r, 64),
                    text: edge(r, 12),
                    wide: r.below(4),
                    length,
                    capacity,
                    seed: r.u64() >> 40,
                    rest: r.pick(&[0u64, 1, 2, 7, 100, 1000]),
                    damage: (0..r.below(4)).map(|_| (r.below(3), if r.chance(0.5) { r.pick(&[0u64, 1, 128, 254, 255, 256, 32768, 65535]) } else { r.below(65536) })).collect(),
                    rows,
                    cols,
                    cuts: if r.chance(0.5) { vec![] } else { (0..r.usize(1, 12)).map(|_| r.u64() >> 40).collect() },
                }
            })
            .collect();
        Plan { writes }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        for (i, w) in plan.writes.iter().enumerate() {
            let mut r = Rng::new(w.seed);
            let rest = r.bytes(w.rest.min(5000) as usize);
            match w.kind % 4 {
                0 => {
                    let bits: Vec<bool> = (0..w.bits.min(5000)).map(|_| r.chance(0.5)).collect();
                    let mark = Watermark::new(bitvec(&bits), r.bytes(w.signature.min(5000) as usize), text(w.text.min(5000), w.wide, w.seed));
                    let fits = bits.len() <= 255 && mark.signature.len() <= 255 && mark.text.len() <= 255;
                    let out = call(|| mark.serialize());
                    ctx.ev(format!("{}: watermark record {} {} {}: {:?}", i, bits.len(), mark.signature.len(), mark.text.len(), out.as_ref().map(|b| hash_bytes(b)).map_err(|e| e.chars().take(60).collect::<String>())));
                    ctx.check(out.is_ok() == fits, if fits { "fitting-refused" } else { "oversize-accepted" }, || format!("perturbation {} bits, signature {}, text {} bytes: {:?}", bits.len(), mark.signature.len(), mark.text.len(), out.as_ref().map(|b| b.len())))?;
                    if !fits {
                        ctx.fault("record too long for its length fields");
                        continue;
                    }
                    let out = out.unwrap();
                    ctx.state(mix(hash_bytes(&out), 7));
                    let mut followed = out.clone();
                    followed.extend(&rest);
                    ctx.fault_n("bytes after the record", rest.len() as u64);
                    let back = call(|| read_watermark(&followed));
                    ctx.check(back.as_ref().ok() == Some(&mark), "record-changed", || format!("{:?} came back as {:?}", mark, back))?;
                    for cut in cuts(w, out.len()) {
                        ctx.fault("torn write");
                        ctx.nontrivial = true;
                        let back = call(|| read_watermark(&out[..cut].to_vec()));
                        ctx.check(back.is_err(), "torn-record-taken", || format!("{} of {} bytes: {:?}", cut, out.len(), back))?;
                    }
                    for (field, value) in &w.damage {
                        let mut d = out.clone();
                        d[*field as usize % 3] = *value as u8;
                        let needed = 3 + (d[0] as usize).div_ceil(8) + d[1] as usize + d[2] as usize;
                        let back = call(|| read_watermark(&d));
                        if needed > d.len() {
                            ctx.fault("length field past the end");
                            ctx.nontrivial = true;
                            ctx.check(back.is_err(), "torn-record-taken", || format!("length fields {:?} of {} bytes: {:?}", &d[..3], d.len(), back))?;
                        } else if let Ok(back) = back {
                            // whatever it is, it consists of the bytes present
                            ctx.probe("length field damaged within the record");
                            let expected = model::parse(&d);
                            let same = expected.as_ref().map_or(false, |e| e.bits == back.perturbation_vector.len() && e.signature == back.signature && e.text == back.text.as_bytes());
                            ctx.check(same, "record-changed", || format!("length fields {:?}: {:?} instead of {:?}", &d[..3], back, expected))?;
                        }
                    }
                    // another writer's record must be the same bytes
                    let theirs = model::record(&Record { bits: bits.len(), perturbation: model::pack(&bits), signature: mark.signature.clone(), text: mark.text.clone().into_bytes() });
                    ctx.check(theirs == out, "format-changed", || format!("{} bytes instead of {}", out.len(), theirs.len()))?;
                }
                1 => {
                    let data = r.bytes(w.length.min(200_000) as usize);
                    let fits = data.len() <= 65535;
                    let out = call(|| embedding::sim_hooks::Data::new(data.clone()).serialize());
                    ctx.ev(format!("{}: data of {} bytes: {:?}", i, data.len(), out.as_ref().map(|b| hash_bytes(b)).map_err(|e| e.chars().take(60).collect::<String>())));
                    ctx.check(out.is_ok() == fits, if fits { "fitting-refused" } else { "oversize-accepted" }, || format!("{} bytes", data.len()))?;
                    if !fits || data.is_empty() {
                        ctx.fault("record too long for its length fields");
                        continue;
                    }
                    let out = out.unwrap();
                    let mut followed = out.clone();
                    followed.extend(&rest);
                    ctx.fault_n("bytes after the record", rest.len() as u64);
                    ctx.state(mix(hash_bytes(&out), 8));
                    let back = call(|| embedding::sim_hooks::deserialize(&followed));
                    ctx.check(back.as_ref().map(|d| &d.bytes).ok() == Some(&data), "record-changed", || format!("{} bytes came back as {:?}", data.len(), back.as_ref().map(|d| d.bytes.len())))?;
                    for cut in cuts(w, out.len()) {
                        ctx.fault("torn write");
                        ctx.nontrivial = true;
                        let back = call(|| embedding::sim_hooks::deserialize(&out[..cut].to_vec()));
                        ctx.check(back.is_err(), "torn-record-taken", || format!("{} of {} bytes: {:?}", cut, out.len(), back.as_ref().map(|d| d.bytes.len())))?;
                    }
                    for (_, value) in &w.damage {
                        let mut d = out.clone();
                        d[..2].copy_from_slice(&(*value as u16).to_le_bytes());
                        if *value as u16 as usize + 2 > d.len() {
                            ctx.fault("length field past the end");
                            ctx.nontrivial = true;
                            let back = call(|| embedding::sim_hooks::deserialize(&d));
                            ctx.check(back.is_err(), "torn-record-taken", || format!("length {} of {} bytes: {:?}", value, d.len(), back.as_ref().map(|d| d.bytes.len())))?;
                        }
                    }
                }
                2 => {
                    let data = r.bytes(w.length.min(3000) as usize);
                    let cap = w.capacity.min(4096) as usize;
                    let out = call(|| encoding::encode(data.clone(), cap));
                    ctx.ev(format!("{}: code stream of {} bytes for {}: {:?}", i, data.len(), cap, out.as_ref().map(|b| hash_bytes(b))));
                    ctx.check(out.is_ok(), "fitting-refused", || format!("{} bytes for {}", data.len(), cap))?;
                    let out = out.unwrap();
                    ctx.state(mix(hash_bytes(&out), 9));
                    let word = model::code_for(cap).map_or(1, |c| c.n() / 8);
                    for cut in cuts(w, out.len()) {
                        // decoding words is slow: the cuts about their borders and some others
                        if word > 1 && cut % word > 1 && cut % word < word - 1 && w.cuts.is_empty() && cut % 37 != w.seed as usize % 37 {
                            continue;
                        }
                        ctx.fault("torn write");
                        ctx.nontrivial = true;
                        let back = call(|| encoding::try_decode(out[..cut].to_vec(), cap));
                        ctx.check(back == Ok(None), "torn-record-taken", || format!("{} of {} bytes of a code stream for {}: {:?}", cut, out.len(), cap, back))?;
                    }
                    if model::code_for(cap).is_none() {
                        for (_, value) in &w.damage {
                            let mut d = out.clone();
                            d[..2].copy_from_slice(&(*value as u16).to_be_bytes());
                            if *value as u16 as usize + 2 > d.len() {
                                ctx.fault("length field past the end");
                                let back = call(|| encoding::try_decode(d.clone(), cap));
                                ctx.check(back == Ok(None), "torn-record-taken", || format!("length {} of {} bytes: {:?}", value, d.len(), back))?;
                            }
                        }
                    } else {
                        // a header damaged before it was encoded
                        let code = model::code_for(cap).unwrap();
                        for (_, value) in &w.damage {
                            let mut first = (*value as u16).to_be_bytes().to_vec();
                            first.extend(&data);
                            first.resize(first.len().max(code.k() / 8), 0);
                            let mut coded = vec![0; code.n() / 8];
                            code.copy_encode(&first[..code.k() / 8], &mut coded);
                            let mut d = out.clone();
                            d[..coded.len()].copy_from_slice(&coded);
                            let present = d.len() / (code.n() / 8) * (code.k() / 8);
                            if *value as u16 as usize + 2 > present {
                                ctx.fault("length field past the end");
                                let back = call(|| encoding::try_decode(d.clone(), cap));
                                ctx.check(back == Ok(None), "torn-record-taken", || format!("length {} in {} words: {:?}", value, d.len() / (code.n() / 8), back))?;
                            }
                        }
                    }
                }
                _ => {
                    let (rows, cols) = (w.rows as usize / 2 * 2, w.cols as usize / 2 * 2);
                    if rows == 0 || cols == 0 || rows * cols > 1 << 18 || w.length == 0 {
                        ctx.invalid = true;
                        continue;
                    }
                    let cap = rows / 2 * (cols / 2) / 8;
                    if cap < 9 {
                        ctx.invalid = true;
                        continue;
                    }
                    let data = r.bytes(w.length.min(70_000) as usize);
                    let source = model::Matrix { rows, cols, px: model::picture(cols, rows, w.seed, 4, 60, 190) };
                    let fits = data.len() + 2 <= model::room(cap);
                    let out = call(|| embedding::embed(array(&source), data.clone(), 40., 1));
                    ctx.ev(format!("{}: {} bytes in {}x{}: {:?}", i, data.len(), rows, cols, out.as_ref().map(|_| ()).map_err(|e| e.chars().take(60).collect::<String>())));
                    ctx.state(mix(mix(w.rows, w.cols), w.length));
                    ctx.check(out.is_ok() == fits, if fits { "fitting-refused" } else { "oversize-accepted" }, || format!("{} bytes in {}x{} ({} bytes of capacity)", data.len(), rows, cols, cap))?;
                    if fits {
                        let back = call(|| embedding::try_extract(out.clone().unwrap(), 40., 1));
                        ctx.check(back == Ok(Some(data.clone())), "record-changed", || format!("{} bytes in {}x{}: {:?}", data.len(), rows, cols, back.as_ref().map(|o| o.as_ref().map(|b| b.len()))))?;
                        // the picture's end is lost: rows at the end become grey
                        let code = model::code_for(cap);
                        let mut torn = out.unwrap();
                        let at = (w.cuts.first().cloned().unwrap_or(w.seed) as usize) % (rows / 2) * 2;
                        for y in at..rows {
                            for x in 0..cols {
                                torn[[y, x]] = 128;
                            }
                        }
                        let back = call(|| embedding::try_extract(torn, 40., 1));
                        ctx.check(back.is_ok(), "crash", || format!("{:?}", back))?;
                        ctx.fault("picture's end lost");
                        if code.is_some() {
                            ctx.probe("coded picture");
                        }
                    } else {
                        ctx.fault("data too long for the picture");
                    }
                }
            }
        }
        Ok(())
    }
}
