//! C10: the command line in worlds with broken inputs and failing system calls reports only what it did.
use crate::cli::{self, Fault, Scratch, World};
use crate::engine::{Ctx, Scenario, Violation};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

pub struct Truthful;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    world: World,
    faults: Vec<Fault>,
    real: bool,
}

impl Scenario for Truthful {
    type Plan = Plan;
    const RULE: &'static str = "a run is one execution of the command on 1..6 inputs of ten extensions, some broken, missing or colliding, with up to 4 harmless and up to 2 failing faults at explicit calls; it is non-trivial when a fault took effect";
    const REAL: &'static [&'static str] = cli::REAL;
    const STUBS: &'static [&'static str] = cli::STUBS;
    const ASSUMPTIONS: &'static [&'static str] = &["a write that the operating system accepted keeps its bytes: errors reported only by fsync or close are not injected as losses", "queries of metadata (stat, realpath) do not fail", "a suffix is given"];

    fn runs(&self) -> (u64, u64) {
        (40_000, 2_000_000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["seed", "w", "h", "color"]
    }
    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let trouble = r.pick(&[0., 0., 0.1, 0.4]);
        let clutter = r.pick(&[0., 0.3, 0.8]);
        let world = cli::world(r, &cli::Taste { trouble, clutter, most: 6 });
        let mut faults = cli::mild(r, 4);
        for _ in 0..r.pick(&[0, 1, 1, 1, 2]) {
            faults.push(cli::harsh(r));
        }
        faults.extend(cli::order(r, true));
        Plan { world, faults, real: false }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        if plan.world.suffix.is_none() || plan.world.inputs.is_empty() {
            ctx.invalid = true;
            return Ok(());
        }
        let s = Scratch::new();
        let place = s.create("a", &plan.world);
        let given = cli::contents(&place);
        let o = place.run(&plan.faults, plan.real);
        let after = place.tree();
        cli::log(ctx, &place, "run", &o, &after);
        ctx.nontrivial = !ctx.faults.is_empty();
        ctx.probe(&o.ending());
        cli::check_reports(ctx, &place, &o, &given, plan.real)?;
        ctx.check(o.signal != Some(libc::SIGXCPU) && o.signal != Some(libc::SIGKILL), "hang", || "the command does not end".into())?;
        if o.status == Some(0) {
            ctx.check(o.reports.len() == plan.world.inputs.len(), "false-success", || {
                format!("status 0 although {} of {} inputs were reported", o.reports.len(), plan.world.inputs.len())
            })?;
        }
        Ok(())
    }
}
