//! C23: a process signs, watermarks and generates keys while keys are written oddly and outputs and
//! entropy fail; whatever leaves the code is searched for the private keys.
use crate::engine::{call, Ctx, Scenario, Violation};
use crate::interpose::{self, EntFault, OutFault, ENT_FAULTS};
use crate::refmodel as model;
use crate::rng::{hash_bytes, mix, Rng};
use ed25519_dalek::{ExpandedSecretKey, SecretKey};
use image::GrayImage;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering::Relaxed;
use watermarking::sim_hooks;

pub struct Secrets;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Step {
    act: Act,
    entropy: u64,
    clock: u64,
    /// (request of entropy, fault)
    faults: Vec<(u64, u8)>,
    /// (write to standard output, fault)
    output: Vec<(u64, u8)>,
}
#[derive(Serialize, Deserialize, Clone)]
enum Act {
    /// `text`: how the private key is written; `public`: 0 its own, 1.. another key's or a damaged one
    Sign { key: u64, length: u64, content: u64, text: Vec<(u8, u64)>, public: u8 },
    Verify { key: u64, length: u64, content: u64, damage: u8 },
    Generate,
    Watermark { picture: u8, size: u8, features: u8, odd: u8 },
    Authenticate { picture: u8, size: u8, features: u8, marked: bool },
}

const FAULTS: [OutFault; 6] = [OutFault::Short1, OutFault::ShortHalf, OutFault::Eintr, OutFault::Epipe, OutFault::Eio, OutFault::Enospc];
const SIZES: [(usize, usize); 4] = [(54, 54), (56, 54), (54, 56), (64, 50)];

fn write_key(text: &str, spelling: &[(u8, u64)]) -> String {
    let mut s: Vec<char> = text.chars().collect();
    for (kind, at) in spelling.iter().take(6) {
        let n = s.len().max(1);
        let a = *at as usize % n;
        match kind % 16 {
            0 => s.push('\n'),
            1 => s.insert(0, ' '),
            2 => s.splice(0..0, ['0', 'x']).for_each(drop),
            3 => {
                s.pop();
            }
            4 => s = s.iter().flat_map(|c| c.to_uppercase()).collect(),
            5 if !s.is_empty() => s[a] = ['g', '+', '-', '_', '.', 'O', 'l', ' '][*at as usize / 97 % 8],
            6 if !s.is_empty() => s[a] = ['\u{e9}', '\u{ff11}', '\u{1f511}', '\u{a0}'][*at as usize / 97 % 4],
            7 => s = s.chunks(2).flat_map(|c| c.iter().cloned().chain([':'])).collect(),
            8 => s.truncate(a),
            9 => s.extend(['\r', '\n']),
            10 => {
                s.insert(0, '"');
                s.push('"');
            }
            11 if !s.is_empty() => {
                s.remove(a);
            }
            12 => s.insert(0, '\u{feff}'),
            13 => s.extend(s.clone()),
            14 => s.insert(a, ['0', 'a', 'z'][*at as usize / 97 % 3]),
            _ => s.push('0'),
        }
    }
    s.into_iter().collect()
}

/// A private key and what signing derives from it
pub struct Secret {
    windows: HashMap<[u8; 8], &'static str>,
    first: Vec<bool>,
}

impl Secret {
    pub fn none() -> Secret {
        Secret { windows: HashMap::new(), first: vec![false; 65536] }
    }
    fn add(&mut self, name: &'static str, bytes: &[u8]) {
        let reversed: Vec<u8> = bytes.iter().rev().cloned().collect();
        for b in [bytes, &reversed] {
            for w in b.windows(8) {
                self.windows.insert(w.try_into().unwrap(), name);
                self.first[w[0] as usize * 256 + w[1] as usize] = true;
            }
        }
    }
    pub fn learn(&mut self, private: &[u8]) {
        self.add("a private key", private);
        if let Ok(k) = SecretKey::from_bytes(private) {
            let e = ExpandedSecretKey::from(&k).to_bytes();
            self.add("a signing scalar", &e[..32]);
            self.add("a nonce prefix", &e[32..]);
        }
    }
    fn in_bytes(&self, b: &[u8]) -> Option<&'static str> {
        b.windows(8).filter(|w| self.first[w[0] as usize * 256 + w[1] as usize]).find_map(|w| self.windows.get(w).cloned())
    }
    /// What is found, and how it is written
    pub fn found(&self, b: &[u8]) -> Option<(&'static str, &'static str)> {
        let with = |how: &'static str| move |what: &'static str| (what, how);
        self.in_bytes(b).map(with("as it is")).or_else(|| {
            let text = b.to_ascii_lowercase();
            let digit = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
            // hexadecimal digits, whatever separates them
            let mut hex = vec![];
            let mut i = 0;
            while i < text.len() {
                if text[i] == b'0' && text.get(i + 1) == Some(&b'x') {
                    i += 2;
                    continue;
                }
                hex.extend(digit(text[i]));
                i += 1;
            }
            for from in 0..2.min(hex.len()) {
                let bytes: Vec<u8> = hex[from..].chunks_exact(2).map(|c| c[0] << 4 | c[1]).collect();
                if let Some(w) = self.in_bytes(&bytes) {
                    return Some((w, "in hexadecimal"));
                }
            }
            // lists of hexadecimal numbers without leading zeros
            let list: Vec<u8> = text.split(|c| digit(*c).is_none()).filter(|t| !t.is_empty() && t.len() <= 2).map(|t| t.iter().fold(0, |n, c| n << 4 | digit(*c).unwrap())).collect();
            if let Some(w) = self.in_bytes(&list) {
                return Some((w, "as hexadecimal numbers"));
            }
            // lists of decimal numbers
            let (mut plain, mut signed, mut bits) = (vec![], vec![], vec![]);
            let (mut le, mut be) = (vec![], vec![]);
            let mut at = 0;
            while at < text.len() {
                if !text[at].is_ascii_digit() {
                    at += 1;
                    continue;
                }
                let end = (at..text.len()).find(|i| !text[*i].is_ascii_digit()).unwrap_or(text.len());
                let token = &text[at..end];
                let minus = at > 0 && text[at - 1] == b'-';
                if token.iter().all(|c| *c < b'2') {
                    bits.extend(token.iter().map(|c| c - b'0'));
                }
                if let Ok(v) = std::str::from_utf8(token).unwrap().parse::<u128>() {
                    if v < 256 {
                        plain.push(v as u8);
                        signed.push(if minus { 0u8.wrapping_sub(v as u8) } else { v as u8 });
                    }
                    if v < 1 << 32 {
                        le.extend((v as u32).to_le_bytes());
                        be.extend((v as u32).to_be_bytes());
                    }
                    let v = if minus { 0u128.wrapping_sub(v) } else { v };
                    if let Some(w) = self.in_bytes(&v.to_le_bytes()) {
                        return Some((w, "as a number"));
                    }
                }
                at = end;
            }
            for (list, how) in [(&plain, "as numbers"), (&signed, "as signed numbers"), (&le, "as words"), (&be, "as words")] {
                if let Some(w) = self.in_bytes(list) {
                    return Some((w, how));
                }
            }
            for from in 0..8.min(bits.len()) {
                let order = |msb: bool| bits[from..].chunks_exact(8).map(|c| (0..8).fold(0, |n, i| n | c[i] << if msb { 7 - i } else { i })).collect::<Vec<u8>>();
                if let Some(w) = self.in_bytes(&order(true)).or_else(|| self.in_bytes(&order(false))) {
                    return Some((w, "bit by bit"));
                }
            }
            // base64
            let six = |c: u8| match c {
                b'A'..=b'Z' => Some(c - b'A'),
                b'a'..=b'z' => Some(c - b'a' + 26),
                b'0'..=b'9' => Some(c - b'0' + 52),
                b'+' | b'-' => Some(62),
                b'/' | b'_' => Some(63),
                _ => None,
            };
            for run in b.split(|c| six(*c).is_none()).filter(|r| r.len() >= 11) {
                for from in 0..4 {
                    let bytes: Vec<u8> = run[from.min(run.len())..]
                        .chunks(4)
                        .flat_map(|c| {
                            let n = c.iter().fold(0u32, |n, c| n << 6 | six(*c).unwrap() as u32) << (6 * (4 - c.len()));
                            [(n >> 16) as u8, (n >> 8) as u8, n as u8]
                        })
                        .collect();
                    if let Some(w) = self.in_bytes(&bytes) {
                        return Some((w, "in base64"));
                    }
                }
            }
            None
        })
    }
}

/// Bit vectors are printed with their address
fn without_addresses(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        out.push(b[i]);
        i += 1;
        if b[i - 1] == b'0' && b.get(i) == Some(&b'x') {
            i += 1;
            while b.get(i).map_or(false, |c| c.is_ascii_hexdigit()) {
                i += 1;
            }
        }
    }
    out
}

fn private_of(key: u64) -> Vec<u8> {
    Rng::new(mix(key, 23)).bytes(32)
}
fn message(length: u64, content: u64) -> Vec<u8> {
    Rng::new(content).bytes(length as usize % 5000)
}

impl Scenario for Secrets {
    type Plan = Plan;
    const RULE: &'static str = "a run signs, verifies, generates keys, watermarks and authenticates 2..14 times in one process, with keys written in many ways, public keys of others, and explicit faults of standard output and the entropy source; it is non-trivial when a private key was used";
    const REAL: &'static [&'static str] = &["signature", "watermarking", "embedding", "encoding", "image-features", "three-bit-quantization", "utils", "ed25519-dalek", "rand_core", "standard library (standard output)"];
    const STUBS: &'static [&'static str] = &["standard output and standard error: recorded, with explicit faults", "files opened for writing: recorded, nothing reaches the file system", "entropy and clock: functions of the plan"];
    const ASSUMPTIONS: &'static [&'static str] = &["eight consecutive bytes of a private key, of its scalar or its nonce prefix do not appear by chance", "notations searched: raw bytes, hexadecimal, lists of decimal, signed and hexadecimal numbers, words of 4, 8 and 16 bytes, bits, base64, each also reversed"];

    fn runs(&self) -> (u64, u64) {
        (80_000, 2_000_000)
    }
    fn plan(&self, r: &mut Rng, index: u64, _thorough: bool) -> Plan {
        let keys: Vec<u64> = (0..r.usize(1, 3)).map(|_| r.below(1 << 30)).collect();
        let most = if r.chance(0.04) { 70_000 } else { 400 };
        let messages: Vec<(u64, u64)> = (0..r.usize(1, 4)).map(|_| (r.log(1, most) - 1, r.below(1 << 30))).collect();
        let heavy = index % 9 == 4;
        let output = r.pick(&[0., 0., 0.4]);
        let entropy = r.u64() >> 20;
        let steps = (0..r.usize(2, if heavy { 5 } else { 14 }))
            .map(|_| {
                let (length, content) = r.pick(&messages);
                let act = match r.below(if heavy { 14 } else { 10 }) {
                    0..=5 => {
                        let text = if r.chance(0.5) { vec![] } else { (0..r.pick(&[1, 1, 1, 2, 3])).map(|_| (r.below(16) as u8, r.below(100_000))).collect() };
                        Act::Sign { key: r.pick(&keys), length, content, text, public: if r.chance(0.3) { 1 + r.below(5) as u8 } else { 0 } }
                    }
                    6 | 7 => Act::Verify { key: r.pick(&keys), length, content, damage: r.below(5) as u8 },
                    8 | 9 => Act::Generate,
                    10 | 11 | 12 => Act::Watermark { picture: r.below(4) as u8, size: r.below(4) as u8, features: 1 + r.below(3) as u8, odd: if r.chance(0.2) { 1 + r.below(2) as u8 } else { 0 } },
                    _ => Act::Authenticate { picture: r.below(4) as u8, size: r.below(4) as u8, features: 1 + r.below(3) as u8, marked: r.chance(0.7) },
                };
                Step {
                    act,
                    entropy: if r.chance(0.6) { entropy } else { r.u64() >> 20 },
                    clock: r.pick(&[0, 1_700_000_000_000_000_000]),
                    faults: if r.chance(0.25) { (0..r.below(5)).map(|_| (r.below(5), r.pick(&[0u8, 1, 2, 5, 6]))).collect() } else { vec![] },
                    output: if r.chance(output) { (0..r.usize(1, 8)).map(|_| (r.log(1, 60) - 1, r.below(6) as u8)).collect() } else { vec![] },
                }
            })
            .collect();
        Plan { steps }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let mut secret = Secret::none();
        secret.learn(&model::unhex(model::PRIVATE_KEY));
        for s in &plan.steps {
            if let Act::Sign { key, .. } | Act::Verify { key, .. } = s.act {
                secret.learn(&private_of(key));
            }
        }
        // operations, outcomes and what was printed so far
        let mut history = 0;
        // nonce -> (key, message)
        let mut nonces: BTreeMap<Vec<u8>, (u64, Vec<u8>)> = BTreeMap::new();
        for (i, s) in plan.steps.iter().enumerate() {
            // what the call needs is made before
            let job = prepare(&s.act);
            interpose::set_out_script(&s.output.iter().map(|(a, f)| (*a, FAULTS[*f as usize % 6])).collect::<Vec<_>>());
            interpose::set_entropy(s.entropy);
            interpose::CLOCK_NS.store(s.clock, Relaxed);
            let script: Vec<(u64, EntFault)> = s.faults.iter().filter(|f| !matches!(f.1 % 7, 3 | 4)).map(|(a, f)| (*a, ENT_FAULTS[*f as usize % 7])).collect();
            interpose::set_entropy_script(&script, u64::MAX, EntFault::Eintr);
            let fired: Vec<u64> = interpose::OUT_FIRED.iter().chain(&interpose::ENT_FIRED).map(|f| f.load(Relaxed)).collect();
            interpose::capture_start();
            let got = job();
            let printed = interpose::capture_end();
            interpose::set_out_script(&[]);
            interpose::set_entropy_script(&[], u64::MAX, EntFault::Eintr);
            const NAMES: [&str; 13] = ["one byte written", "half written", "write interrupted", "output closed", "output error", "output full", "half of the entropy", "one byte of entropy", "entropy interrupted", "-", "-", "entropy error", "entropy would block"];
            for (k, f) in interpose::OUT_FIRED.iter().chain(&interpose::ENT_FIRED).enumerate() {
                ctx.fault_n(NAMES[k], f.load(Relaxed) - fired[k]);
            }
            ctx.sim_us = ctx.sim_us.max(s.clock / 1000);
            let name = match &s.act {
                Act::Sign { text, public, .. } => format!("sign{}{}", if text.is_empty() { "" } else { " (key written oddly)" }, if *public == 0 { "" } else { " (other public key)" }),
                Act::Verify { .. } => "verify".into(),
                Act::Generate => "generate".into(),
                Act::Watermark { .. } => "watermark".into(),
                Act::Authenticate { .. } => "authenticate".into(),
            };
            ctx.probe(&format!("{}{}", name, if got.is_err() { " failed" } else { "" }));
            let result = match &got {
                Ok(b) => format!("{} bytes {:x}", b.len(), hash_bytes(b)),
                Err(e) => format!("failed: {}", e.chars().take(60).collect::<String>()),
            };
            let shown = without_addresses(&printed);
            ctx.ev(format!("{}: {}: printed {} bytes {:x}: {}", i, name, shown.len(), hash_bytes(&shown), result));
            history = mix(history, mix(hash_bytes(name.as_bytes()), mix(got.is_ok() as u64, hash_bytes(&shown))));
            ctx.state(history);
            ctx.nontrivial |= !matches!(s.act, Act::Verify { .. } | Act::Authenticate { .. });
            if let (Act::Generate, Ok(pair)) = (&s.act, &got) {
                // known to its caller alone
                let text = String::from_utf8_lossy(pair);
                secret.learn(&model::unhex(&text[..64.min(text.len())]));
            }
            if let Some((what, how)) = secret.found(&printed) {
                ctx.check(false, "key-printed", || format!("step {}: {}: {} was printed {}", i, name, what, how))?;
            }
            match &got {
                Err(e) => {
                    if let Some((what, how)) = secret.found(e.as_bytes()) {
                        ctx.check(false, "key-in-error", || format!("step {}: {}: the error contains {} {}: {}", i, name, what, how, e))?;
                    }
                }
                Ok(b) => {
                    let mut returned = b.clone();
                    match &s.act {
                        Act::Generate => returned.drain(..64.min(b.len())).for_each(drop),
                        Act::Watermark { size, .. } => {
                            // also what the picture carries
                            let (w, h) = SIZES[*size as usize % 4];
                            if b.len() == w * h {
                                let m = model::matrix(&GrayImage::from_raw(w as u32, h as u32, b.clone()).unwrap());
                                returned = model::read_bytes(&m, 40., 1);
                                returned.extend(model::extract(&m, 40., 1).unwrap_or_default());
                            }
                        }
                        _ => {}
                    }
                    if let Some((what, how)) = secret.found(&returned) {
                        ctx.check(false, "key-returned", || format!("step {}: {}: the result contains {} {}", i, name, what, how))?;
                    }
                    ctx.check(true, "", String::new)?;
                }
            }
            if let (Act::Sign { key, length, content, text, .. }, Ok(signature)) = (&s.act, &got) {
                let m = message(*length, *content);
                // a key written in another way may be another key
                let own = text.iter().all(|t| t.0 % 16 == 4);
                if own {
                    let right = model::verify(&m, signature, &model::public_of(&private_of(*key)));
                    ctx.check(right, "signed-with-foreign-key", || format!("step {}: {}: the signature was made with a public key that does not belong to the private one; together with the right one it gives the private key away", i, name))?;
                    if let Some(other) = nonces.insert(signature[..32.min(signature.len())].to_vec(), (*key, m.clone())) {
                        ctx.check(other == (*key, m.clone()), "nonce-repeated", || format!("step {}: signatures of two messages or keys have the same nonce", i))?;
                        ctx.probe("signed again");
                    }
                }
            }
        }
        Ok(())
    }
}

fn prepare(act: &Act) -> Box<dyn FnOnce() -> Result<Vec<u8>, String>> {
    match act.clone() {
        Act::Sign { key, length, content, text, public } => {
            let private = private_of(key);
            let m = message(length, content);
            let p = write_key(&model::hex(&private), &text);
            let own = model::hex(&model::public_of(&private));
            let q = match public % 6 {
                0 => own,
                1 | 2 => model::hex(&model::public_of(&private_of(key + 1))),
                3 => own[..own.len() - 1].to_string(),
                4 => format!("{}\n", own),
                _ => model::PUBLIC_KEY.to_string(),
            };
            Box::new(move || call(|| sia_signature::sign(&m, &p, &q)))
        }
        Act::Verify { key, length, content, damage } => {
            let private = private_of(key);
            let m = message(length, content);
            let mut s = model::sign(&m, &private);
            let mut q = model::hex(&model::public_of(&private));
            match damage % 5 {
                1 => s[3] ^= 4,
                2 => s.truncate(40),
                3 => q.push('\n'),
                4 => q = q.replace('a', "\u{e9}"),
                _ => {}
            }
            Box::new(move || call(|| vec![sia_signature::verify(&m, &s, &q) as u8]))
        }
        Act::Generate => Box::new(|| {
            call(|| {
                let (a, b) = sia_signature::sim_hooks::generate();
                (a + &b).into_bytes()
            })
        }),
        Act::Watermark { picture, size, features, odd } => {
            let (w, h) = match odd {
                1 => (31, 54),
                2 => (32, 32),
                _ => SIZES[size as usize % 4],
            };
            let g = GrayImage::from_raw(w as u32, h as u32, model::picture(w, h, picture as u64, picture % 5, 40, 210)).unwrap();
            Box::new(move || call(|| sim_hooks::watermark_channel(&g, 40., 4., features.clamp(1, 4) as usize, 1).into_raw()))
        }
        Act::Authenticate { picture, size, features, marked } => {
            let (w, h) = SIZES[size as usize % 4];
            let n = features.clamp(1, 4) as usize;
            let g = GrayImage::from_raw(w as u32, h as u32, model::picture(w, h, picture as u64, picture % 5, 40, 210)).unwrap();
            let g = if marked { model::watermark_channel(&g, 40., 4., n, 1).unwrap_or(g) } else { g };
            Box::new(move || call(|| vec![sim_hooks::authenticate_channel(&g, 40., 4., n, 1) as u8]))
        }
    }
}
