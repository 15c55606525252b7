//! C22: long histories of calls, and batches of the command line, watched for what they keep.
use crate::cli::{self, Fault, Node, Scratch, What, World};
use crate::engine::{Ctx, Scenario, Violation};
use crate::interpose::{self, OutFault};
use crate::ops::{self, Op};
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::SeqCst;

pub struct Bounded;

#[derive(Serialize, Deserialize)]
pub enum Plan {
    /// The same round of calls again and again
    Same { round: Vec<Step>, times: u64 },
    /// Rounds of calls with new contents; `shapes`: also with new sizes
    New { rounds: Vec<Vec<Step>>, shapes: bool },
    /// The images alone, and all of them, each `copies` times, in one command
    Batch { images: Vec<What>, copies: u64, order: u64, out: bool, faults: Vec<Fault> },
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Step {
    op: Op,
    output: Vec<(u64, u8)>,
    /// on another thread, which ends afterwards
    thread: bool,
}

const FAULTS: [OutFault; 6] = [OutFault::Short1, OutFault::ShortHalf, OutFault::Eintr, OutFault::Epipe, OutFault::Eio, OutFault::Enospc];
/// rounds that may keep what is made once
const WARM: usize = 2;
/// calls after which what is kept no longer grows unless it does for ever
const LONG: usize = 150;
/// sizes after which another one no longer keeps more unless each does
const SIZES: usize = 120;

/// Bytes a call keeps after its result was dropped
fn keeps(s: &Step, ctx: &mut Ctx) -> i64 {
    let script: Vec<(u64, OutFault)> = s.output.iter().map(|(a, f)| (*a, FAULTS[*f as usize % 6])).collect();
    let before: Vec<u64> = interpose::OUT_FIRED.iter().map(|f| f.load(SeqCst)).collect();
    interpose::set_out_script(&script);
    interpose::LIVE.store(0, SeqCst);
    interpose::COUNTING.store(true, SeqCst);
    let failed = if s.thread {
        let op = s.op.clone();
        std::thread::spawn(move || op.outcome() == b"P").join().unwrap_or(true)
    } else {
        s.op.outcome() == b"P"
    };
    interpose::COUNTING.store(false, SeqCst);
    interpose::set_out_script(&[]);
    for (k, f) in interpose::OUT_FIRED.iter().enumerate() {
        ctx.fault_n(["one byte written", "half written", "write interrupted", "output closed", "output error", "output full"][k], f.load(SeqCst) - before[k]);
    }
    if failed {
        ctx.fault("call failed");
    }
    if s.thread {
        ctx.fault("thread ended");
    }
    ctx.probe(&s.op.name());
    interpose::LIVE.load(SeqCst)
}

/// Open files and threads
fn handles() -> (usize, usize) {
    cli::outside(|| {
        let count = |p: &str| std::fs::read_dir(p).map_or(0, |d| d.count());
        (count("/proc/self/fd"), count("/proc/self/task"))
    })
}

fn random_step(r: &mut Rng, op: Op, output: f64) -> Step {
    let faults = if r.chance(output) {
        let mild = r.chance(0.5);
        (0..r.usize(1, 8)).map(|_| (r.log(1, 60) - 1, if mild { r.below(3) } else { r.below(6) } as u8)).collect()
    } else {
        vec![]
    };
    Step { op, output: faults, thread: r.chance(0.15) }
}

impl Scenario for Bounded {
    type Plan = Plan;
    const RULE: &'static str = "a run repeats a round of calls 12..400 times, makes 12..20 rounds of ever new calls (failing ones, ended threads and explicit faults of standard output among them), or compares a batch of 6..24 images on the command line with each of them alone; it is non-trivial when something was repeated";
    const REAL: &'static [&'static str] = &["watermarking", "embedding", "encoding", "image-features", "zernike", "three-bit-quantization", "signature", "utils", "cli (its unchanged binary)", "standard library"];
    const STUBS: &'static [&'static str] = &["memory: the system's allocator behind a counter", "standard output: a sink with explicit faults", "watermarking in the runs of the command line: a cheap content-dependent transformation", "system calls of the command line: passed through a shim with an explicit fault plan"];
    const ASSUMPTIONS: &'static [&'static str] = &["what is kept once, in the first two rounds, is not counted", "what still grows from 150 (or the run's) calls to twice and four times as many grows for ever", "calls of new sizes may keep something for a limited number of them: they are judged by whether every later round keeps more", "a batch may need 64 KiB, a sixth and 2 KiB for every input more than its largest image"];

    fn runs(&self) -> (u64, u64) {
        (6_000, 250_000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["seed", "w", "h", "color"]
    }
    fn plan(&self, r: &mut Rng, index: u64, _thorough: bool) -> Plan {
        if index % 4 == 3 {
            let images: Vec<What> = (0..r.usize(1, 3))
                .map(|_| {
                    let format = r.pick(&["png", "bmp", "tiff", "ppm", "png"]).to_string();
                    What::Image { seed: r.below(1000), w: r.usize(100, 260) as u32, h: r.usize(100, 260) as u32, color: r.pick(&[0u8, 1, 2, 2, 4, 4, 6, 7]), format }
                })
                .collect();
            let copies = r.range(6, 24) as u64 / images.len() as u64 + 1;
            let mut faults = if r.chance(0.4) { cli::mild(r, 4) } else { vec![] };
            faults.retain(|f| f.kind != 'S' || f.value >= 100);
            faults.extend(cli::order(r, false));
            return Plan::Batch { images, copies, order: r.below(1000), out: r.chance(0.6), faults };
        }
        let output = r.pick(&[0., 0., 0.3, 0.8]);
        if index % 4 == 1 {
            let shapes = r.chance(0.4);
            let kind = if r.chance(0.25) { r.pick(&[0u8, 1, 2, 3]) } else { r.pick(&[4u8, 5, 6, 7, 8, 8, 9, 10, 11, 12]) };
            let cheap = kind > 3;
            let base = ops::wide(r, kind);
            let seed = r.range(4, 63) as u8;
            let odd = r.chance(0.4);
            let mut more = 0;
            let rounds = (0..r.usize(12, 20))
                .map(|_| {
                    (0..if cheap { r.usize(10, 20) } else { 3 })
                        .map(|_| {
                            let mut op = ops::wide(r, kind);
                            if !shapes {
                                // data of the same length
                                more += 1;
                                op = Op { size: base.size, features: base.features, seed, more, ..op };
                            } else if r.chance(0.6) {
                                // at least the size is a new one
                                op.size = r.below(200) as u8;
                            }
                            if odd && r.chance(0.5) {
                                op.odd = 1 + r.below(4) as u8;
                            }
                            random_step(r, op, output * 0.2)
                        })
                        .collect()
                })
                .collect();
            return Plan::New { rounds, shapes };
        }
        let spread = r.pick(&[2u64, 3, 8, 8]);
        let odd = r.chance(0.3);
        let round: Vec<Step> = (0..r.usize(1, 4))
            .map(|_| {
                let mut op = ops::random(r, spread);
                if odd {
                    op.odd = 1 + r.below(4) as u8;
                }
                random_step(r, op, output)
            })
            .collect();
        let cheap = round.iter().all(|s| s.op.cheap());
        Plan::Same { round, times: if cheap && r.chance(0.3) { r.log(12, 400) } else { r.log(12, 30) } }
    }

    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        match plan {
            Plan::Same { round, times } => {
                let times = (*times).min(4000) as usize;
                let rounds: Vec<&[Step]> = (0..times).map(|_| &round[..]).collect();
                history(&rounds, false, ctx)
            }
            Plan::New { rounds, shapes } => history(&rounds.iter().map(|r| &r[..]).collect::<Vec<_>>(), *shapes, ctx),
            Plan::Batch { images, copies, order, out, faults } => batch(images, (*copies).min(30), *order, *out, faults, ctx),
        }
    }
}

fn history(rounds: &[&[Step]], shapes: bool, ctx: &mut Ctx) -> Result<(), Violation> {
    let mut kept: Vec<i64> = vec![];
    let mut open = (0, 0);
    for (i, round) in rounds.iter().enumerate() {
        let mut k = 0;
        for s in round.iter() {
            k += keeps(s, ctx);
        }
        kept.push(k);
        ctx.ev(format!("round {}: {} keeps {} bytes", i, round.iter().map(|s| s.op.name()).collect::<Vec<_>>().join(", "), k));
        ctx.state(mix(k as u64, i as u64 + round.iter().fold(0, |h, s| mix(h, s.op.kind as u64 * 16 + s.op.odd as u64))));
        if i + 1 == WARM {
            open = handles();
        }
    }
    if rounds.len() < 8 {
        ctx.invalid = true;
        return Ok(());
    }
    ctx.nontrivial = true;
    let names = || {
        let mut n: Vec<String> = rounds.iter().flat_map(|r| r.iter()).map(|s| s.op.name()).collect();
        n.sort();
        n.dedup();
        n.join(", ")
    };
    let now = handles();
    // the descriptors of the simulator itself are not part of the history
    ctx.ev(format!("{} more open files, {} more threads", now.0 as i64 - open.0 as i64, now.1 as i64 - open.1 as i64));
    ctx.check(now.0 <= open.0, "files-stay-open", || format!("{} more open files after {} rounds of: {}", now.0 - open.0, rounds.len() - WARM, names()))?;
    ctx.check(now.1 <= open.1, "threads-stay", || format!("{} more threads after {} rounds of: {}", now.1 - open.1, rounds.len() - WARM, names()))?;
    if !shapes {
        let later = &kept[WARM..];
        // what grows at its end only doubles its room now and then, but in the second half once
        let suspicious = later.iter().sum::<i64>() > 0 && later.iter().filter(|k| **k > 0).count() > 1 && later[later.len() / 2 - 1..].iter().any(|k| *k > 0);
        if !suspicious {
            return Ok(());
        }
        // what is limited to some entries grows until there are as many, and then only varies with
        // their sizes: the same sizes again, with new contents, keep as much as before
        ctx.probe("went on");
        let calls: usize = rounds.iter().map(|r| r.len()).sum::<usize>().max(1);
        let mut level = kept.iter().sum::<i64>();
        let (mut passes, mut levels) = (1, vec![]);
        let long = [1, 2, 4].map(|k| k * calls.max(LONG));
        for long in long {
            while calls * passes < long {
                for round in rounds {
                    let fresh = |s: &Step| Step { op: Op { more: if s.op.more > 0 { s.op.more + 1000 * passes as u32 } else { 0 }, ..s.op.clone() }, ..s.clone() };
                    level += round.iter().map(|s| keeps(&fresh(s), ctx)).sum::<i64>();
                }
                passes += 1;
            }
            levels.push(level);
        }
        ctx.ev(format!("keeps {:?} bytes after {:?} calls", levels, long));
        ctx.check(!levels.windows(2).all(|l| l[0] < l[1]), "memory-grows", || format!("{:?} bytes kept after {:?} calls: {}", levels, long, names()))
    } else {
        let grows = |kept: &[i64]| {
            let half = &kept[kept.len() / 2..];
            half.iter().all(|k| *k > 0) && half.iter().sum::<i64>() >= 1024
        };
        // what is limited to some sizes grows until there were as many
        let mut sizes: Vec<u8> = rounds.iter().flat_map(|r| r.iter()).map(|s| s.op.size).collect();
        let calls = sizes.len();
        while grows(&kept) && sizes.len() < calls.max(SIZES) {
            ctx.probe("went on");
            for round in rounds {
                let fresh = round.iter().map(|s| {
                    let size = (0..200).find(|k| !sizes.contains(k)).unwrap_or(s.op.size);
                    sizes.push(size);
                    Step { op: Op { size, ..s.op.clone() }, ..s.clone() }
                });
                kept.push(fresh.collect::<Vec<_>>().iter().map(|s| keeps(s, ctx)).sum());
            }
        }
        let half = &kept[kept.len() / 2..];
        ctx.check(!grows(&kept), "memory-grows", || format!("each of the last {} rounds keeps more, {} bytes together: {}", half.len(), half.iter().sum::<i64>(), names()))
    }
}

fn world(images: &[(usize, &What)], out: bool) -> World {
    let nodes: Vec<Node> = images
        .iter()
        .map(|(k, what)| {
            let ext = match what {
                What::Image { format, .. } => format.clone(),
                _ => "png".into(),
            };
            Node { path: format!("photo{}.{}", k, ext), what: (*what).clone() }
        })
        .collect();
    World { inputs: nodes.iter().map(|n| n.path.clone()).collect(), nodes, suffix: Some("w".into()), out: if out { Some("out".into()) } else { None }, style: 0, cwd: "".into() }
}

/// The most memory and files the command held at once
fn needs(o: &cli::Outcome) -> Option<(i64, i64)> {
    let memory = o.events.iter().find(|e| e.class == '$')?.result;
    let (mut open, mut most) = (0, 0);
    for e in &o.events {
        match e.class {
            'o' | 'c' if e.result >= 0 => open += 1,
            'x' => open -= 1,
            _ => {}
        }
        most = most.max(open);
    }
    Some((memory, most))
}

fn batch(images: &[What], copies: u64, order: u64, out: bool, faults: &[Fault], ctx: &mut Ctx) -> Result<(), Violation> {
    let measure = Fault { class: 'u', nth: 0, kind: 'm', value: 0 };
    let faults: Vec<Fault> = faults.iter().cloned().chain([measure.clone()]).collect();
    let every: Vec<Fault> = faults.iter().filter(|f| f.class == 'u' || f.kind == 'S' || f.kind == 'D').cloned().collect();
    let s = Scratch::new();
    let (mut memory, mut files) = (0, 0);
    for (k, image) in images.iter().enumerate() {
        let place = s.create("alone", &world(&[(k, image)], out));
        let o = place.run(&every, false);
        if o.status != Some(0) {
            ctx.ev(format!("alone: {}", o.ending()));
            ctx.invalid = true;
            return Ok(());
        }
        let Some(n) = needs(&o) else { crate::engine::harness_error("the shim measured nothing") };
        ctx.ev(format!("image {} needs {} bytes, {} open files", k, n.0, n.1));
        memory = memory.max(n.0);
        files = files.max(n.1);
    }
    let mut list: Vec<(usize, &What)> = (0..copies as usize).flat_map(|c| images.iter().enumerate().map(move |(k, i)| (c * 10 + k, i))).collect();
    let mut r = Rng::new(order);
    for i in (1..list.len()).rev() {
        list.swap(i, r.usize(0, i));
    }
    let place = s.create("batch", &world(&list, out));
    let o = place.run(&faults, false);
    let after = place.tree();
    cli::log(ctx, &place, "batch", &o, &after);
    ctx.probe(&format!("batch {}", o.ending()));
    if o.status != Some(0) {
        return Ok(());
    }
    ctx.nontrivial = true;
    let Some(n) = needs(&o) else { crate::engine::harness_error("the shim measured nothing") };
    let allowed = memory + memory / 6 + 65_536 + 2_048 * list.len() as i64;
    ctx.check(n.0 <= allowed, "batch-needs-memory", || format!("{} images need {} bytes at once, the largest alone {}", list.len(), n.0, memory))?;
    ctx.check(n.1 <= files + 1, "batch-keeps-files", || format!("{} images hold {} files open at once, one alone {}", list.len(), n.1, files))
}
