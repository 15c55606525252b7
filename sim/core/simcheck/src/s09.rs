//! C09: one process makes a long sequence of calls, some of which fail, while standard output
//! misbehaves; every result must be that of a fresh process.
use crate::engine::{Ctx, Scenario, Violation};
use crate::interpose::{self, OutFault};
use crate::ops::{self, Op};
use crate::rng::{hash_str, mix, Rng};
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;

pub struct History;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    steps: Vec<Step>,
}
#[derive(Serialize, Deserialize)]
struct Step {
    op: Op,
    /// (write to standard output, fault)
    output: Vec<(u64, u8)>,
    repeat: u64,
    /// on another thread, which ends afterwards
    thread: bool,
}

const FAULTS: [OutFault; 6] = [OutFault::Short1, OutFault::ShortHalf, OutFault::Eintr, OutFault::Epipe, OutFault::Eio, OutFault::Enospc];

impl Scenario for History {
    type Plan = Plan;
    const RULE: &'static str = "a run makes 3..14, 30..100 or up to 340 calls in one process, with parameters from a small pool, failing calls among them and explicit faults of standard output; it is non-trivial when a call followed a failed one, one with other parameters, or met an output fault";
    const REAL: &'static [&'static str] = &["watermarking", "embedding", "encoding", "image-features", "zernike", "three-bit-quantization", "signature", "utils", "standard library (standard output)"];
    const STUBS: &'static [&'static str] = &["standard output: a sink with explicit faults", "entropy: a function of the call's seed"];
    const ASSUMPTIONS: &'static [&'static str] = &["a call's result alone is what it returns as the first call of a fresh copy of the process", "a call during which standard output reported an error may panic instead of returning"];

    fn runs(&self) -> (u64, u64) {
        (16_000, 500_000)
    }

    fn plan(&self, r: &mut Rng, index: u64, _thorough: bool) -> Plan {
        if index % 97 == 13 {
            // very many different calls, then some of them again
            let kinds: Vec<u8> = (0..r.usize(1, 2)).map(|_| r.pick(&[4u8, 5, 6, 7, 8, 8, 9, 10, 11, 12])).collect();
            let pool: Vec<Op> = (0..r.log(20, 280)).map(|_| { let kind = r.pick(&kinds); ops::wide(r, kind) }).collect();
            let again: Vec<Op> = (0..r.usize(5, 60)).map(|_| r.pick(&pool)).collect();
            let steps = pool.into_iter().chain(again).map(|op| Step { op, output: vec![], repeat: 1, thread: false }).collect();
            return Plan { steps };
        }
        let spread = r.pick(&[2u64, 2, 3, 8, 8]);
        let focus = r.chance(0.5);
        let kinds: Vec<u8> = (0..r.usize(1, 3)).map(|_| r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12])).collect();
        let output = r.pick(&[0., 0.3, 0.8]);
        let fresh = |r: &mut Rng| {
            let mut op = ops::random(r, spread);
            if focus {
                op.kind = r.pick(&kinds);
            }
            op
        };
        let long = r.chance(0.12);
        // the same calls again and again: what one leaves behind meets its like
        let pool: Vec<Op> = (0..if long { r.usize(8, 20) } else if r.chance(0.4) { r.usize(2, 6) } else { 0 }).map(|_| fresh(r)).collect();
        let steps = (0..if long { r.usize(30, 100) } else { r.usize(3, 14) })
            .map(|_| {
                let op = if pool.is_empty() { fresh(r) } else { r.pick(&pool) };
                let faults = if r.chance(output) {
                    let mild = r.chance(0.6);
                    (0..r.usize(1, 12)).map(|_| (r.log(1, 60) - 1, if mild { r.below(3) } else { r.below(6) } as u8)).collect()
                } else {
                    vec![]
                };
                let many = r.chance(0.01);
                let repeat = if many { r.log(5, if op.cheap() { 300 } else { 30 }) } else { r.pick(&[1, 1, 1, 2]) };
                Step { op, output: faults, repeat, thread: r.chance(0.15) }
            })
            .collect();
        Plan { steps }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let refs = match ops::references(plan.steps.iter().map(|s| &s.op)) {
            Ok(r) => r,
            Err(e) => return ctx.check(false, "crash", || e),
        };
        let mut state = 0;
        for (i, s) in plan.steps.iter().enumerate() {
            let expected = &refs[&serde_json::to_string(&s.op).unwrap()];
            if s.repeat > 4 {
                ctx.probe("the same call many times");
            }
            for _ in 0..s.repeat.min(2000) {
                let script: Vec<(u64, OutFault)> = s.output.iter().map(|(a, f)| (*a, FAULTS[*f as usize % 6])).collect();
                let before: Vec<u64> = interpose::OUT_FIRED.iter().map(|f| f.load(Relaxed)).collect();
                interpose::set_out_script(&script);
                let got = if s.thread {
                    let op = s.op.clone();
                    std::thread::spawn(move || op.outcome()).join().unwrap_or(b"P".to_vec())
                } else {
                    s.op.outcome()
                };
                interpose::set_out_script(&[]);
                let fired: Vec<u64> = interpose::OUT_FIRED.iter().zip(&before).map(|(f, b)| f.load(Relaxed) - b).collect();
                for (k, n) in fired.iter().enumerate() {
                    ctx.fault_n(["one byte written", "half written", "write interrupted", "output closed", "output error", "output full"][k], *n);
                }
                let fatal = fired[3..].iter().sum::<u64>() > 0;
                ctx.nontrivial |= i > 0 || fired.iter().sum::<u64>() > 0;
                ctx.probe(&s.op.name());
                if got == b"P" {
                    ctx.fault(if fatal { "call failed by output" } else { "call failed" });
                }
                ctx.ev(format!("{}: {}: output faults {:?}: {}", i, s.op.name(), fired, ops::short(&got)));
                state = mix(state, hash_str(&format!("{:?}{:?}", s.op, fired)));
                ctx.state(state);
                let ok = got == *expected || (fatal && got == b"P");
                ctx.check(ok, "result-differs", || format!("call {}: {:?} ({}): {} instead of {}", i, s.op, s.op.name(), ops::short(&got), ops::short(expected)))?;
            }
        }
        Ok(())
    }
}
