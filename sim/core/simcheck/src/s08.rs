//! C08: several threads of one process call the libraries; a seeded scheduler decides at every basic
//! block, allocation, write and lock operation who runs.
use crate::engine::{Ctx, Scenario, Violation};
use crate::ops::{self, Op};
use crate::rng::{mix, Rng};
use crate::sched::{self, Switch};
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

pub struct Concurrent;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    threads: Vec<Vec<Op>>,
    first: u64,
    schedule: Vec<Switch>,
    /// calls made before the threads start
    before: Vec<Op>,
}

impl Scenario for Concurrent {
    type Plan = Plan;
    const RULE: &'static str = "a run has 2..5 threads with 1..12 calls each, after 0..2 calls made before, and an explicit schedule of up to 120 preemptions; it is non-trivial when at least two threads were preempted within a call";
    const REAL: &'static [&'static str] = &["watermarking", "embedding", "encoding", "image-features", "zernike", "three-bit-quantization", "signature", "utils", "standard library (locks, standard output)", "getrandom"];
    const STUBS: &'static [&'static str] = &["operating system scheduler: token-passing scheduler at basic blocks of the repository's crates, allocations, writes, futexes", "standard output: a sink", "entropy: a function of the call's seed"];
    const ASSUMPTIONS: &'static [&'static str] = &["memory is sequentially consistent: switches happen between basic blocks, and reorderings by processors are not simulated", "a call's result alone is what it returns as the only call of a fresh copy of the process"];

    fn runs(&self) -> (u64, u64) {
        (24_000, 600_000)
    }

    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let spread = r.pick(&[1u64, 2, 2, 3, 8]);
        let focus = r.chance(0.5);
        let kinds: Vec<u8> = (0..r.usize(1, 3)).map(|_| r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12])).collect();
        let fresh = |r: &mut Rng| {
            let mut o = ops::random(r, spread);
            if focus {
                o.kind = r.pick(&kinds);
            }
            o
        };
        // often the same few calls again and again, so that what one leaves behind meets its like
        let pool: Vec<Op> = (0..if r.chance(0.5) { r.usize(2, 6) } else { 0 }).map(|_| fresh(r)).collect();
        let op = |r: &mut Rng| if pool.is_empty() { fresh(r) } else { r.pick(&pool) };
        let most = r.pick(&[3usize, 3, 5, 8, 12]);
        let threads: Vec<Vec<Op>> = (0..r.usize(2, 5)).map(|_| (0..r.usize(1, most)).map(|_| op(r)).collect()).collect();
        let style = r.below(14);
        let mut site = 1 + r.below(1 << 32);
        let mut schedule = vec![];
        for _ in 0..r.log(1, 60) {
            let kind = match style {
                0 => sched::BLOCK,
                1 => sched::NOVEL,
                2 => sched::ALLOC,
                3 => sched::SYNC,
                4 | 5 => sched::RARE,
                6 | 7 => r.below(5) as u8,
                8..=10 => sched::SITE,
                _ => sched::ATOMIC,
            };
            let most = match kind {
                sched::BLOCK => 300_000,
                sched::NOVEL => 200,
                sched::ALLOC => 4_000,
                sched::RARE => 1_000,
                sched::ATOMIC => 100,
                _ => 300,
            };
            if r.chance(0.1) {
                site = 1 + r.below(1 << 32);
            }
            schedule.push(Switch { kind, after: r.log(1, most), to: r.below(5) as u8, site: if kind == sched::SITE { site } else { 0 } });
            if style >= 5 && r.chance(0.7) {
                // the others get whole calls while this one is within one
                schedule.push(Switch { kind: sched::CALL, after: r.log(1, 6), to: r.below(5) as u8, site: 0 });
            }
        }
        let before = if r.chance(0.4) { (0..r.usize(1, 2)).map(|_| op(r)).collect() } else { vec![] };
        Plan { threads, first: r.below(5), schedule, before }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let n = plan.threads.len();
        if n == 0 || n > sched::MAX_THREADS {
            ctx.invalid = true;
            return Ok(());
        }
        let refs = match ops::references(plan.threads.iter().flatten().chain(&plan.before)) {
            Ok(r) => r,
            Err(e) => return ctx.check(false, "crash", || e),
        };
        let expected = |op: &Op| refs[&serde_json::to_string(op).unwrap()].clone();
        for op in &plan.before {
            let got = op.outcome();
            ctx.ev(format!("before: {}: {}", op.name(), ops::short(&got)));
            ctx.check(got == expected(op), "result-differs", || format!("before the threads: {:?}: {} instead of {}", op, ops::short(&got), ops::short(&expected(op))))?;
        }
        let results: Arc<Vec<Mutex<Vec<Vec<u8>>>>> = Arc::new((0..n).map(|_| Mutex::new(vec![])).collect());
        let jobs: Vec<Box<dyn FnOnce() + Send>> = plan
            .threads
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let (ops, results) = (ops.clone(), results.clone());
                Box::new(move || {
                    for op in &ops {
                        let r = op.outcome();
                        results[i].lock().unwrap().push(r);
                        sched::point(sched::CALL, 0);
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let report = sched::run(jobs, plan.schedule.clone(), plan.first as usize);
        for (step, from, to, guard, why) in report.trace.iter().take(200) {
            if *from < 100 {
                ctx.ev(format!("step {}: thread {} -> {} at block {} ({})", step, from, to, guard, ["block", "new block", "allocation", "system call", "rare block", "end of call", "", "atomic operation", "lock", "turn", "start"][*why as usize % 11]));
            }
        }
        ctx.fault_n("preemption", report.trace.iter().filter(|t| t.4 < 8).count() as u64);
        ctx.fault_n("thread waited for a lock", report.blocks);
        ctx.probe_n("scheduling points", report.steps);
        ctx.state(mix(report.pair_hash, 8));
        let preempted: std::collections::BTreeSet<u8> = report.trace.iter().filter(|t| t.4 < 8).map(|t| t.1).collect();
        ctx.nontrivial = preempted.len() >= 2;
        ctx.ev(format!("{} steps, {} switches", report.steps, report.switches));
        for (i, ops) in plan.threads.iter().enumerate() {
            let got = results[i].lock().unwrap();
            ctx.check(got.len() == ops.len(), "not-finished", || format!("thread {}: {} of {} calls", i, got.len(), ops.len()))?;
            for (k, op) in ops.iter().enumerate() {
                ctx.probe(&op.name());
                ctx.ev(format!("thread {}: {}: {}", i, op.name(), ops::short(&got[k])));
                ctx.check(got[k] == expected(op), "result-differs", || format!("thread {} call {}: {:?} ({}): {} instead of {}", i, k, op, op.name(), ops::short(&got[k]), ops::short(&expected(op))))?;
            }
        }
        Ok(())
    }
}
