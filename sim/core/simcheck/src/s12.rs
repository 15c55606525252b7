//! C12: the command is killed at explicit calls, again and again, and started anew.
use crate::cli::{self, Entry, Fault, Scratch, Tree, World};
use crate::engine::{Ctx, Scenario, Violation};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

pub struct Repeatable;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    world: World,
    kills: Vec<Vec<Fault>>,
    last: Vec<Fault>,
    real: bool,
}

/// What was printed, without durations and the name of the scratch folder
fn lines(place: &cli::Place, o: &cli::Outcome) -> Vec<String> {
    let dir = place.dir.to_str().unwrap();
    o.reports.iter().map(|r| format!("{} {} {}", r.path.replace(dir, ""), r.from, r.to)).collect()
}
fn shown(place: &cli::Place, t: Tree) -> Tree {
    let dir = place.dir.to_str().unwrap().to_string();
    t.into_iter()
        .map(|(k, e)| match e {
            Entry::Link(to) => (k, Entry::Link(to.to_string_lossy().replace(&dir, "").into())),
            e => (k, e),
        })
        .collect()
}

impl Scenario for Repeatable {
    type Plan = Plan;
    const RULE: &'static str = "a run kills 1..4 executions of the command at explicit calls (before, within or after them), starts it again, and compares with an undisturbed execution in a fresh copy of the folder; it is non-trivial when an execution was killed";
    const REAL: &'static [&'static str] = cli::REAL;
    const STUBS: &'static [&'static str] = cli::STUBS;
    const ASSUMPTIONS: &'static [&'static str] = &["the process is killed, not the machine: what the operating system accepted is in the file", "no input of the command is missing at its start and created by it", "nobody else changes the files meanwhile"];

    fn runs(&self) -> (u64, u64) {
        (18_000, 1_000_000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["seed", "w", "h", "color"]
    }
    fn plan(&self, r: &mut Rng, index: u64, thorough: bool) -> Plan {
        let real = thorough && index % 501 == 7;
        let trouble = r.pick(&[0., 0., 0., 0.2]);
        let clutter = r.pick(&[0., 0.2, 0.5]);
        let world = if real { cli::real_world(r) } else { cli::world(r, &cli::Taste { trouble, clutter, most: 5 }) };
        let kills = (0..if real { 1 } else { r.pick(&[1, 1, 2, 4]) })
            .map(|_| {
                let mut f = if r.chance(0.3) { cli::mild(r, 2) } else { vec![] };
                let class = r.pick(&['w', 'w', 'w', 'c', 'c', 'x', 'p', 'd', 'o', 'r', 'n', 'f', 's']);
                let nth = if class == 'r' || class == 'p' { r.log(1, 20) - 1 } else { r.below(6) };
                let kind = if class == 'w' || class == 'p' { r.pick(&['k', 'K', 'm', 'm']) } else { r.pick(&['k', 'K']) };
                f.push(Fault { class, nth, kind, value: if kind == 'm' { r.log(1, 3000) as i64 - 1 } else { 0 } });
                f.extend(cli::order(r, false));
                f
            })
            .collect();
        Plan { world, kills, last: if r.chance(0.3) { cli::mild(r, 3) } else { vec![] }, real }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let w = &plan.world;
        let s = Scratch::new();
        let calm = s.create("b", w);
        let outputs: Vec<_> = (0..w.inputs.len()).map(|i| calm.output(i)).collect();
        if w.inputs.is_empty() {
            ctx.invalid = true;
            return Ok(());
        }
        let given = cli::contents(&calm);
        let undisturbed = calm.run(&[], plan.real);
        // an output of the run may not be a missing input of it
        if (0..w.inputs.len()).any(|i| cli::born(&calm, i, &given)) {
            ctx.invalid = true;
            return Ok(());
        }
        let wanted = shown(&calm, calm.tree());
        let place = s.create("a", w);
        let given = cli::contents(&place);
        for (i, faults) in plan.kills.iter().enumerate() {
            let o = place.run(faults, plan.real);
            let after = place.tree();
            cli::log(ctx, &place, &format!("attempt {}", i), &o, &after);
            if o.signal == Some(libc::SIGKILL) {
                ctx.nontrivial = true;
                ctx.probe("killed");
            }
            // what was reported before is complete
            cli::check_reports(ctx, &place, &o, &given, plan.real)?;
        }
        let o = place.run(&plan.last, plan.real);
        let after = place.tree();
        cli::log(ctx, &place, "last attempt", &o, &after);
        ctx.probe(&format!("undisturbed {}", undisturbed.ending()));
        ctx.check(o.ending() == undisturbed.ending(), "repeated-run-fails", || format!("{} instead of {}: {} {}", o.ending(), undisturbed.ending(), o.stdout, o.stderr))?;
        let (a, b) = (lines(&place, &o), lines(&calm, &undisturbed));
        ctx.check(a == b, "repeated-run-reports", || format!("{:?} instead of {:?}", a, b))?;
        let got = shown(&place, after);
        for key in got.keys().chain(wanted.keys()) {
            // what is at the output of a failed input may be torn
            let of_failed = o.status != Some(0) && outputs.iter().flatten().skip(o.reports.len()).any(|p| calm.key(p) == *key);
            ctx.check(got.get(key) == wanted.get(key) || of_failed, "repeated-run-differs", || {
                let show = |e: Option<&Entry>| match e {
                    None => "nothing".to_string(),
                    Some(Entry::File(b, _)) => format!("{} bytes", b.len()),
                    Some(e) => format!("{:?}", e),
                };
                format!("{}: {} instead of {}", key, show(got.get(key)), show(wanted.get(key)))
            })?;
        }
        Ok(())
    }
}
