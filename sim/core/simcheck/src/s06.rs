//! C06: signers and verifiers exchange signed messages over a network that damages, forges, mixes up
//! and replays them.
use crate::engine::{call, Ctx, Scenario, Violation};
use crate::net::Queue;
use crate::refmodel as model;
use crate::rng::{hash_bytes, mix, Rng};
use serde::{Deserialize, Serialize};

pub struct Signatures;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    keys: Vec<u64>,
    signings: Vec<Signing>,
    deliveries: Vec<Delivery>,
}
#[derive(Serialize, Deserialize)]
struct Signing {
    at: u64,
    key: u64,
    length: u64,
    content: u64,
}
#[derive(Serialize, Deserialize)]
struct Delivery {
    at: u64,
    signing: u64,
    copies: u64,
    message: Vec<Op>,
    signature: Vec<Op>,
    key: Vec<Op>,
    /// damage of the public key's text
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    text: Vec<Op>,
}
/// One damage of a byte string
#[derive(Serialize, Deserialize, Clone)]
struct Op {
    /// 0 flip a bit, 1 set a byte, 2 cut, 3 append, 4 remove a byte, 5 insert a byte, 6 swap two,
    /// 7 that of another signing or signer, 8 add the group order to the scalar, 9 zero all,
    /// 10 first half of another, 11 repeat
    op: u8,
    a: u64,
    b: u64,
}

enum Event {
    Sign(usize),
    Verify(usize),
}

const ORDER: &str = "edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010";

fn apply(v: &mut Vec<u8>, o: &Op, others: &[Vec<u8>]) {
    let n = v.len().max(1);
    let (a, b) = (o.a as usize, o.b as usize);
    match o.op % 12 {
        0 if !v.is_empty() => v[a % n] ^= 1 << (b % 8),
        1 if !v.is_empty() => v[a % n] = b as u8,
        2 => v.truncate(a % (n + 1)),
        3 => v.extend(Rng::new(o.b).bytes(1 + a % 80)),
        4 if !v.is_empty() => {
            v.remove(a % n);
        }
        5 => v.insert(a % (v.len() + 1), b as u8),
        6 if !v.is_empty() => v.swap(a % n, b % n),
        7 if !others.is_empty() => *v = others[a % others.len()].clone(),
        8 if v.len() == 64 => {
            let l = model::unhex(ORDER);
            for _ in 0..1 + a % 7 {
                let mut carry = 0u16;
                for i in 0..32 {
                    let x = v[32 + i] as u16 + l[i] as u16 + carry;
                    v[32 + i] = x as u8;
                    carry = x >> 8;
                }
            }
        }
        9 => v.iter_mut().for_each(|x| *x = 0),
        10 if !others.is_empty() => {
            let o = &others[a % others.len()];
            let h = v.len().min(o.len()) / 2;
            v[..h].copy_from_slice(&o[..h]);
        }
        11 => {
            let c = v.clone();
            v.extend(c);
        }
        _ => {}
    }
}

/// Damage of a text: characters changed, lost, added, other spellings
fn spell(s: &mut Vec<char>, o: &Op) {
    const CHARS: [char; 16] = ['+', '-', ' ', 'g', 'x', '_', '0', '1', 'f', 'F', '\0', '\n', '.', ':', '\u{e9}', '\u{ff11}'];
    let (a, c) = (o.a as usize, CHARS[o.b as usize % 16]);
    let n = s.len();
    match o.op % 8 {
        0 if n > 0 => s[a % n] = c,
        1 => s.insert(a % (n + 1), c),
        2 if n > 0 => {
            s.remove(a % n);
        }
        3 => s.push(c),
        4 => *s = s.iter().flat_map(|c| c.to_uppercase()).collect(),
        5 => s.splice(0..0, ['0', 'x']).for_each(drop),
        // a leading zero is written as a sign
        6 => {
            let at: Vec<usize> = (0..n / 2).map(|i| 2 * i).filter(|i| s[*i] == '0').collect();
            if !at.is_empty() {
                s[at[a % at.len()]] = c;
            }
        }
        _ => s.extend([c, c]),
    }
}

fn ops(r: &mut Rng, p: f64, kinds: &[u8]) -> Vec<Op> {
    if !r.chance(p) {
        return vec![];
    }
    (0..if r.chance(0.8) { 1 } else { r.usize(2, 4) })
        .map(|_| Op { op: r.pick(kinds), a: if r.chance(0.5) { r.below(128) } else { r.u64() >> 40 }, b: r.u64() >> 40 })
        .collect()
}

impl Scenario for Signatures {
    type Plan = Plan;
    const RULE: &'static str = "a run has 1..3 key pairs, 1..4 signed messages and 4..16 deliveries with explicit damage of message, signature and key; it is non-trivial when a damaged delivery was verified";
    const REAL: &'static [&'static str] = &["signature (sign, verify)", "utils::format", "ed25519-dalek"];
    const STUBS: &'static [&'static str] = &["network: byte strings damaged by the simulator", "clock: event queue"];
    const ASSUMPTIONS: &'static [&'static str] = &["no damage makes a valid signature by chance", "a public key that is no point may be answered with a panic, which is not an acceptance"];

    fn runs(&self) -> (u64, u64) {
        (150_000, 4_000_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let k = r.usize(1, 3);
        let n = r.usize(1, 4);
        let keys = (0..k).map(|_| r.u64() >> 32).collect();
        let signings = (0..n)
            .map(|_| Signing { at: r.below(100), key: r.below(k as u64), length: if r.chance(0.02) { r.pick(&[255u64, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 0]) + r.below(2) * r.log(1, 60_000) } else { r.pick(&[0, 1, 8, 8, 16, 24, 88, 88, 200]) + r.below(2) * r.below(300) }, content: r.u64() >> 40 })
            .collect();
        let deliveries = (0..r.usize(4, 16))
            .map(|_| {
                let style = r.below(6);
                Delivery {
                    at: r.below(300),
                    signing: r.below(n as u64),
                    copies: 1 + r.below(2),
                    message: ops(r, if style == 1 { 1. } else if style == 4 { 0.3 } else { 0. }, &[0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11]),
                    signature: ops(r, if style == 2 { 1. } else if style == 4 { 0.3 } else { 0. }, &[0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11]),
                    key: ops(r, if style == 3 { 1. } else if style == 4 { 0.3 } else { 0. }, &[0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 9, 10]),
                    text: ops(r, if style == 5 { 1. } else { 0. }, &[0, 0, 1, 2, 3, 4, 5, 6, 6, 6, 7]),
                }
            })
            .collect();
        Plan { keys, signings, deliveries }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        if plan.keys.is_empty() {
            ctx.invalid = true;
            return Ok(());
        }
        let mut q = Queue::new();
        for (i, s) in plan.signings.iter().enumerate() {
            q.at(s.at, Event::Sign(i));
        }
        for (i, d) in plan.deliveries.iter().enumerate() {
            for c in 0..d.copies.min(3) {
                q.at(100 + d.at + 40 * c, Event::Verify(i));
            }
        }
        let privates: Vec<Vec<u8>> = plan.keys.iter().map(|k| Rng::new(*k).bytes(32)).collect();
        let publics: Vec<Vec<u8>> = privates.iter().map(|p| model::public_of(p)).collect();
        let messages: Vec<Vec<u8>> = plan.signings.iter().map(|s| Rng::new(s.content).bytes(s.length.min(200_000) as usize)).collect();
        let mut signatures: Vec<Option<Vec<u8>>> = plan.signings.iter().map(|_| None).collect();
        while let Some(e) = q.next() {
            ctx.sim_us = q.now;
            match e {
                Event::Sign(i) => {
                    let s = &plan.signings[i];
                    let k = s.key as usize % privates.len();
                    let r = call(|| sia_signature::sign(&messages[i], &model::hex(&privates[k]), &model::hex(&publics[k])));
                    ctx.ev(format!("t={} {} signs message {} of {} bytes: {:?}", q.now, k, i, messages[i].len(), r.as_ref().map(|s| hash_bytes(s))));
                    ctx.check(r.is_ok(), "signing-failed", || r.clone().unwrap_err())?;
                    signatures[i] = r.ok();
                }
                Event::Verify(j) => {
                    let d = &plan.deliveries[j];
                    let i = d.signing as usize % plan.signings.len().max(1);
                    let sent = match signatures.get(i) {
                        Some(Some(s)) => s.clone(),
                        _ => continue,
                    };
                    let k = plan.signings[i].key as usize % privates.len();
                    let all: Vec<Vec<u8>> = signatures.iter().flatten().cloned().collect();
                    let (mut message, mut signature, mut key) = (messages[i].clone(), sent.clone(), publics[k].clone());
                    d.message.iter().for_each(|o| apply(&mut message, o, &messages));
                    d.signature.iter().for_each(|o| apply(&mut signature, o, &all));
                    d.key.iter().for_each(|o| apply(&mut key, o, &publics));
                    for (o, what) in d.message.iter().map(|o| (o, "message")).chain(d.signature.iter().map(|o| (o, "signature"))).chain(d.key.iter().map(|o| (o, "key"))) {
                        ctx.fault(&format!("{} {}", what, ["bit flip", "byte changed", "cut", "bytes appended", "byte lost", "byte inserted", "bytes reordered", "another's", "scalar plus group order", "zeroed", "half of another's", "repeated"][o.op as usize % 12]));
                    }
                    if d.copies > 1 {
                        ctx.fault("duplicate delivery");
                    }
                    let mut text: Vec<char> = model::hex(&key).chars().collect();
                    for o in &d.text {
                        spell(&mut text, o);
                        ctx.fault("key's text damaged");
                    }
                    let text: String = text.into_iter().collect();
                    // capital letters mean the same
                    let key = if text.to_lowercase() == model::hex(&key) { key } else { vec![] };
                    let r = call(|| sia_signature::verify(&message, &signature, &text));
                    // a signature may have become that of another signing
                    let genuine = (0..messages.len()).any(|m| {
                        messages[m] == message && signatures[m].as_ref() == Some(&signature) && publics[plan.signings[m].key as usize % privates.len()] == key
                    });
                    ctx.ev(format!("t={} verify {}: message {} signature {} key {}: {:?}", q.now, i, message == messages[i], signature == sent, key == publics[k], r));
                    ctx.state(mix(hash_bytes(&message) ^ hash_bytes(&signature), hash_bytes(&key)));
                    if genuine && text != text.to_lowercase() {
                        ctx.probe("key in capital letters");
                    } else if genuine {
                        ctx.probe("undamaged delivery");
                        ctx.check(r == Ok(true), "genuine-refused", || format!("message of {} bytes: {:?}", message.len(), r))?;
                    } else {
                        ctx.nontrivial = true;
                        ctx.probe("damaged delivery");
                        ctx.check(r != Ok(true), "accepted", || format!("message intact {} signature intact {} ({} bytes) key intact {}: {:?}", message == messages[i], signature == sent, signature.len(), key == publics[k], text))?;
                        if publics.contains(&key) {
                            ctx.check(r.is_ok(), "crash", || format!("message of {} bytes, signature of {} bytes: {:?}", message.len(), signature.len(), r))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
