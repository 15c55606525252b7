//! C15: processes generate key pairs while the simulator plays the system's entropy source, its
//! failures and the clock.
use crate::engine::{call, in_fresh_process, Ctx, Scenario, Violation};
use crate::interpose::{self, EntFault, ENT_FAULTS};
use crate::refmodel as model;
use crate::rng::{hash_str, mix, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;

pub struct Keys;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    /// the system call: 0 there, 1 missing, 2 forbidden
    missing: u8,
    calls: Vec<Call>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Call {
    /// in a process that has just been forked from the one of the history
    forked: bool,
    entropy: u64,
    clock: u64,
    /// (request, fault)
    faults: Vec<(u64, u8)>,
    /// from this request on the fault below; none when 0
    from: u64,
    fault: u8,
    device_missing: bool,
    /// also: which entropy bytes the key is made of
    influence: bool,
}

fn fault(i: u8) -> EntFault {
    ENT_FAULTS[i as usize % 7]
}

struct Made {
    pair: Result<(String, String), String>,
    drawn: u64,
    fired: [u64; 7],
    requests: u64,
}

fn generate(c: &Call, flipped: Option<u64>) -> Made {
    let script: Vec<(u64, EntFault)> = c.faults.iter().map(|(a, f)| (*a, fault(*f))).collect();
    interpose::set_entropy(c.entropy);
    interpose::set_entropy_script(&script, if c.from == 0 { u64::MAX } else { c.from - 1 }, fault(c.fault));
    interpose::ENT_FLIP.store(flipped.unwrap_or(u64::MAX), Relaxed);
    interpose::DEV_MISSING.store(c.device_missing, Relaxed);
    interpose::CLOCK_NS.store(c.clock, Relaxed);
    let before = interpose::ENT_BYTES.load(Relaxed);
    let fired: Vec<u64> = interpose::ENT_FIRED.iter().map(|f| f.load(Relaxed)).collect();
    let pair = call(sia_signature::sim_hooks::generate);
    let mut out = Made { pair, drawn: interpose::ENT_BYTES.load(Relaxed) - before, fired: [0; 7], requests: interpose::ENT_CALLS.load(Relaxed) };
    for i in 0..7 {
        out.fired[i] = interpose::ENT_FIRED[i].load(Relaxed) - fired[i];
    }
    interpose::ENT_FLIP.store(u64::MAX, Relaxed);
    interpose::DEV_MISSING.store(false, Relaxed);
    interpose::set_entropy_script(&[], u64::MAX, EntFault::Eintr);
    out
}

fn quiet(c: &Call) -> Call {
    Call { faults: vec![], from: 0, device_missing: false, ..c.clone() }
}

impl Scenario for Keys {
    type Plan = Plan;
    const RULE: &'static str = "a run generates 2..10 key pairs, some in freshly forked processes, each with its own entropy, clock and explicit faults of the entropy source; it is non-trivial when a fault was met or a key's dependence on every entropy byte was checked";
    const REAL: &'static [&'static str] = &["signature (keypair)", "utils::format", "rand_core (OsRng)", "getrandom", "ed25519-dalek"];
    const STUBS: &'static [&'static str] = &["the kernel's entropy: getrandom and /dev/urandom", "the clock"];
    const ASSUMPTIONS: &'static [&'static str] = &["the simulated entropy source counts the bytes it hands out; what it returns is a function of its seed", "distinct 64-bit seeds give distinct entropy"];

    fn runs(&self) -> (u64, u64) {
        (100_000, 4_000_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let pool: Vec<u64> = (0..r.usize(1, 5)).map(|_| r.u64() >> 20).collect();
        let clocks = [0, 1_700_000_000_000_000_000, r.u64() >> 3];
        let calls = (0..r.usize(2, 10))
            .map(|_| {
                let style = r.below(8);
                Call {
                    forked: r.chance(0.25),
                    entropy: r.pick(&pool),
                    clock: r.pick(&clocks),
                    faults: match style {
                        0 | 1 => vec![],
                        2 => (0..r.below(20)).map(|i| (i, r.pick(&[0u8, 1, 2]))).collect(),
                        3 | 4 => (0..r.below(6)).map(|_| (r.below(5), r.pick(&[0u8, 1, 2, 5, 6]))).collect(),
                        _ => vec![],
                    },
                    from: match style {
                        6 => 1 + r.below(3),
                        4 if r.chance(0.4) => 2 + r.below(4),
                        _ => 0,
                    },
                    fault: r.pick(&[0u8, 1, 5, 6]),
                    device_missing: r.chance(0.1),
                    influence: r.chance(0.08),
                }
            })
            .collect();
        Plan { missing: r.pick(&[0, 0, 0, 1, 2]), calls }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let mut keys: BTreeMap<u64, (String, String)> = BTreeMap::new();
        interpose::ENT_MISSING.store([0, libc::ENOSYS, libc::EPERM][plan.missing as usize % 3] as u32, Relaxed);
        for (i, c) in plan.calls.iter().enumerate() {
            if c.from != 0 && fault(c.fault) == EntFault::Eintr || c.faults.iter().any(|(_, f)| matches!(f % 7, 3 | 4)) || matches!(c.fault % 7, 3 | 4) || c.faults.len() > 60 {
                ctx.invalid = true;
                continue;
            }
            let m = if c.forked {
                ctx.fault("fresh process");
                let bytes = in_fresh_process(|| {
                    let m = generate(c, None);
                    serde_json::to_vec(&(m.pair, m.drawn, m.fired, m.requests)).unwrap()
                });
                match bytes.ok().and_then(|b| serde_json::from_slice::<(Result<(String, String), String>, u64, [u64; 7], u64)>(&b).ok()) {
                    Some((pair, drawn, fired, requests)) => Made { pair, drawn, fired, requests },
                    None => return ctx.check(false, "crash", || "the process generating a key ended".into()),
                }
            } else {
                generate(c, None)
            };
            for (k, n) in m.fired.iter().enumerate() {
                ctx.fault_n(["half of the bytes", "one byte only", "interrupted", "no such system call", "forbidden", "input/output error", "would block"][k], *n);
                ctx.nontrivial |= *n > 0;
            }
            if c.device_missing {
                ctx.fault("no entropy device");
            }
            ctx.sim_us = ctx.sim_us.max(c.clock / 1000);
            ctx.ev(format!("call {} entropy {:x} clock {} forked {}: {} requests, {} bytes drawn: {:?}", i, c.entropy, c.clock, c.forked, m.requests, m.drawn, m.pair.as_ref().map_err(|e| e.chars().take(80).collect::<String>())));
            ctx.state(mix(hash_str(&format!("{:?}{:?}", m.fired, m.drawn)), hash_str(&format!("{:?}", m.pair.is_ok()))));
            let mild = m.fired[5] == 0 && m.fired[6] == 0 && !(c.device_missing && plan.missing % 3 != 0);
            match &m.pair {
                Err(e) => {
                    // the source has to have failed; the system call being missing is no failure
                    ctx.probe("no key");
                    ctx.check(!mild, "generation-prevented", || format!("call {}: faults {:?}: {}", i, c.faults, e))?;
                }
                Ok((private, public)) => {
                    ctx.probe("key");
                    ctx.check(m.drawn >= 32, "too-little-entropy", || format!("call {}: a key was made of {} fresh bytes", i, m.drawn))?;
                    let ok = private.len() == 64 && public.len() == 64 && private.bytes().chain(public.bytes()).all(|b| b.is_ascii_hexdigit());
                    ctx.check(ok, "malformed-key", || format!("{} {}", private, public))?;
                    ctx.check(model::hex(&model::public_of(&model::unhex(private))) == public.to_lowercase(), "keys-do-not-match", || format!("{} {}", private, public))?;
                    for (e, (other, _)) in &keys {
                        if *e != c.entropy {
                            ctx.check(other != private, "key-repeated", || format!("call {}: entropy {:x} and {:x} give {}", i, e, c.entropy, private))?;
                        } else {
                            ctx.check(other == private, "key-depends-on-more", || format!("call {}: entropy {:x} gave {} and gives {}", i, e, other, private))?;
                        }
                    }
                    keys.insert(c.entropy, (private.clone(), public.clone()));
                    if c.influence {
                        let base = generate(&quiet(c), None);
                        let mut matter = 0;
                        for byte in 0..base.drawn.min(200) {
                            let other = generate(&quiet(c), Some(byte * 8 + (c.entropy >> (byte % 8)) % 8));
                            if let (Ok(a), Ok(b)) = (&base.pair, &other.pair) {
                                if a.0 != b.0 {
                                    matter += 1;
                                }
                            }
                        }
                        ctx.nontrivial = true;
                        ctx.probe("dependence on every byte");
                        ctx.check(matter >= 32, "too-little-entropy", || format!("call {}: only {} entropy bytes matter", i, matter))?;
                    }
                }
            }
        }
        Ok(())
    }
}
