//! C14: the clocks are simulated; the printed durations are those of the images.
use crate::cli::{self, Fault, Scratch, World};
use crate::engine::{Ctx, Scenario, Violation};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

pub struct Durations;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    world: World,
    faults: Vec<Fault>,
    real: bool,
}

/// The text for a duration: the unit that fits it, rounded down
pub fn text(ns: i64) -> String {
    match ns {
        _ if ns < 1_000 => format!("{} ns", ns),
        _ if ns < 1_000_000 => format!("{} µs", ns / 1_000),
        _ if ns < 1_000_000_000 => format!("{} ms", ns / 1_000_000),
        _ if ns < 10_000_000_000 => format!("{}.{:02} s", ns / 1_000_000_000, ns % 1_000_000_000 / 10_000_000),
        _ => format!("{} s", ns / 1_000_000_000),
    }
}
/// The durations a text can stand for
pub fn meaning(t: &str) -> Option<(i64, i64)> {
    let (number, unit) = t.split_once(' ')?;
    let n: i64 = number.replace('.', "").parse().ok()?;
    let size = match (unit, number.contains('.')) {
        ("ns", false) => 1,
        ("µs", false) => 1_000,
        ("ms", false) => 1_000_000,
        ("s", true) => 10_000_000,
        ("s", false) => 1_000_000_000,
        _ => return None,
    };
    let range = (n.checked_mul(size)?, n.checked_mul(size)?.checked_add(size - 1)?);
    if text(range.0) == t { Some(range) } else { None }
}

impl Scenario for Durations {
    type Plan = Plan;
    const RULE: &'static str = "a run executes the command on 1..6 valid images with explicit durations of opening, reading, computing, creating, writing and printing, and steps of the wall clock in both directions; it is non-trivial when a call took time";
    const REAL: &'static [&'static str] = cli::REAL;
    const STUBS: &'static [&'static str] = cli::STUBS;
    const ASSUMPTIONS: &'static [&'static str] = &["time passes only in the calls that have a duration and in computing"];

    fn runs(&self) -> (u64, u64) {
        (40_000, 2_000_000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["seed", "color"]
    }
    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let world = cli::world(r, &cli::Taste { trouble: 0., clutter: 0., most: 6 });
        let mut faults = vec![];
        let most = r.pick(&[900u64, 900_000, 900_000_000, 20_000_000_000, 20_000_000_000, 400_000_000_000, 400_000_000_000, 20_000_000_000_000_000]);
        if r.chance(0.5) {
            faults.push(Fault { class: 'u', nth: 0, kind: 't', value: r.log(1, 1_000_000_000_000_000) as i64 });
        }
        for _ in 0..r.below(9) {
            let class = r.pick(&['r', 'r', 'o', 'o', 'c', 'w', 'w', 's', 's', 'p', 'p', 'x', 'd']);
            let value = match r.below(8) {
                0 => r.pick(&[999i64, 1_000, 999_999, 1_000_000, 999_999_999, 1_000_000_000, 9_999_999_999, 10_000_000_000, 9_990_000_000, 59_999_999_999, 60_000_000_000, 3_600_000_000_000]),
                _ => r.log(1, most) as i64,
            };
            faults.push(Fault { class, nth: r.log(1, 12) - 1, kind: if r.chance(0.1) { 'D' } else { 'd' }, value });
        }
        for _ in 0..r.below(4) {
            let back = r.chance(0.5);
            let v = r.log(1, 100_000_000_000_000) as i64;
            faults.push(Fault { class: r.pick(&['r', 's', 'w', 'c', 'o', 'p']), nth: r.log(1, 12) - 1, kind: 'w', value: if back { -v } else { v } });
        }
        if r.chance(0.3) {
            faults.extend(cli::mild(r, 3));
        }
        faults.extend(cli::order(r, false));
        Plan { world, faults, real: false }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let w = &plan.world;
        let s = Scratch::new();
        let place = s.create("a", w);
        let files: Vec<String> = (0..w.inputs.len()).map(|i| cli::outside(|| std::fs::canonicalize(place.input_file(i))).map(|p| place.key(&p)).unwrap_or_default()).collect();
        let o = place.run(&plan.faults, plan.real);
        let after = place.tree();
        cli::log(ctx, &place, "run", &o, &after);
        ctx.nontrivial = ctx.faults.keys().any(|k| k.starts_with("slow") || k.starts_with("wall"));
        // when a call begins, its duration has not passed yet
        let begin = |i: usize| if i == 0 { o.events.first().map_or(0, |_| 1_000_000_000_000) } else { o.events[i - 1].time };
        let mut free = 0; // the first event that is not part of what came before
        for (k, rep) in o.reports.iter().enumerate() {
            let Some(range) = meaning(&rep.time) else {
                return ctx.check(false, "unreadable-duration", || format!("{}: '{}' is no duration in its unit, rounded down", rep.path, rep.time));
            };
            let file = &files[k.min(files.len() - 1)];
            let key = place.output(k.min(w.inputs.len() - 1)).map(|p| cli::outside(|| std::fs::canonicalize(&p)).map(|p| place.key(&p)).unwrap_or_default()).unwrap_or_default();
            let opened = (free..o.events.len()).find(|i| o.events[*i].class == 'o' && o.events[*i].path == *file);
            let written = (free..rep.first.min(o.events.len())).rev().find(|i| {
                let e = &o.events[*i];
                e.path == key && (e.class == 'w' || e.class == 'n')
            });
            let (Some(a), Some(b)) = (opened, written) else {
                ctx.probe("input or output not seen");
                continue;
            };
            // at least from the opening to the last write, at most from the previous line to this one
            let least = o.events[b].time - begin(a);
            let start = if free == 0 { o.events.iter().find(|e| e.class != 't').map_or(0, |_| 1_000_000_000_000i64 + plan.faults.iter().filter(|f| f.class == 'u' && f.kind == 't').map(|f| f.value).sum::<i64>()) } else { o.events[free - 1].time };
            let most = begin(rep.first) - start;
            ctx.probe(rep.time.split(' ').nth(1).unwrap_or(""));
            let fits = range.1 >= least && range.0 <= most;
            ctx.check(fits, "wrong-duration", || format!("{}: {} although it took at least {} and at most {}", rep.path, rep.time, text(least), text(most)))?;
            if text(least) == text(most) {
                ctx.probe("exact");
            }
            free = rep.last + 1;
        }
        ctx.check(o.status != Some(0) || o.reports.len() == w.inputs.len(), "missing-report", || "a line is missing".into())
    }
}
