//! C11: whatever the names, links, collisions and failures, nothing but outputs changes.
use crate::cli::{self, Entry, Fault, Scratch, World};
use crate::engine::{Ctx, Scenario, Violation};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

pub struct Harmless;

fn identity(p: &std::path::Path) -> Option<(u64, u64)> {
    use std::os::unix::fs::MetadataExt;
    cli::outside(|| std::fs::metadata(p)).ok().map(|m| (m.dev(), m.ino()))
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    world: World,
    /// faults of each of several executions, one after the other
    runs: Vec<Vec<Fault>>,
}

impl Scenario for Harmless {
    type Plan = Plan;
    const RULE: &'static str = "a run is 1..3 executions of the command in one folder with colliding names, aliases, existing outputs, links and bystanders, with up to 2 failing faults each; it is non-trivial when a fault took effect or an output name was taken";
    const REAL: &'static [&'static str] = cli::REAL;
    const STUBS: &'static [&'static str] = cli::STUBS;
    const ASSUMPTIONS: &'static [&'static str] = &["queries of metadata (stat, realpath) do not fail", "an output that is a symbolic or hard link to a file that is neither input nor output is not generated: what it leads to is the output", "nobody else changes the files meanwhile"];

    fn runs(&self) -> (u64, u64) {
        (30_000, 2_000_000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["seed", "w", "h", "color"]
    }
    fn plan(&self, r: &mut Rng, _index: u64, _thorough: bool) -> Plan {
        let trouble = r.pick(&[0., 0.2, 0.2, 0.5]);
        let clutter = r.pick(&[0.2, 0.6, 1.]);
        let world = cli::world(r, &cli::Taste { trouble, clutter, most: 5 });
        let runs = (0..r.pick(&[1, 1, 2, 3]))
            .map(|_| {
                let mut faults = cli::mild(r, 2);
                for _ in 0..r.below(3) {
                    faults.push(cli::harsh(r));
                }
                faults.extend(cli::order(r, true));
                faults
            })
            .collect();
        Plan { world, runs }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        let w = &plan.world;
        if w.inputs.is_empty() {
            ctx.invalid = true;
            return Ok(());
        }
        let s = Scratch::new();
        let place = s.create("a", w);
        for faults in &plan.runs {
            let before = place.tree();
            let given = cli::contents(&place);
            let outputs: Vec<Option<String>> = (0..w.inputs.len()).map(|i| place.output(i).map(|p| place.key(&p))).collect();
            let resolved = |key: &str| cli::outside(|| std::fs::canonicalize(place.dir.join(key))).map(|p| place.key(&p)).unwrap_or(key.to_string());
            // files that are inputs, under all of their names
            let input_files: BTreeSet<(u64, u64)> = (0..w.inputs.len())
                .filter_map(|i| {
                    use std::os::unix::fs::MetadataExt;
                    cli::outside(|| std::fs::metadata(place.input_file(i))).ok().map(|m| (m.dev(), m.ino()))
                })
                .collect();
            let output_ids: Vec<_> = outputs.iter().map(|o| o.as_ref().and_then(|o| identity(&place.dir.join(o)))).collect();
            let real_outputs: Vec<String> = outputs.iter().flatten().map(|o| resolved(o)).collect();
            let names: BTreeSet<String> = outputs.iter().flatten().cloned().chain(real_outputs.iter().cloned()).collect();
            let o = place.run(faults, false);
            let after = place.tree();
            cli::log(ctx, &place, "run", &o, &after);
            ctx.probe(&o.ending());
            ctx.nontrivial |= !ctx.faults.is_empty() || outputs.iter().flatten().any(|k| before.contains_key(k));
            // inputs first: no name may make them change
            for i in 0..w.inputs.len() {
                let now = cli::outside(|| std::fs::read(place.input_file(i)).ok());
                let created = given[i].is_none();
                ctx.check(created || now == given[i], "input-changed", || format!("input {} has {:?} bytes instead of {:?}, or others", w.inputs[i], now.as_ref().map(|n| n.len()), given[i].as_ref().map(|n| n.len())))?;
            }
            let folder = w.out.as_ref().map(|out| cli::lexical(&cli::join(&w.cwd, out)));
            let is_folder = |key: &str| folder.as_ref().map_or(false, |f| f == key || f.starts_with(&format!("{}/", key)));
            for key in before.keys().chain(after.keys()).collect::<BTreeSet<_>>() {
                let (b, a) = (before.get(key), after.get(key));
                if a == b {
                    continue;
                }
                let created_folder = b.is_none() && a == Some(&Entry::Dir) && is_folder(key);
                let is_output = names.contains(key) && !matches!(b, Some(Entry::Dir)) && matches!(a, Some(Entry::File(..)));
                // under its other names an input may neither change
                let alias = names.contains(key) && {
                    use std::os::unix::fs::MetadataExt;
                    cli::outside(|| std::fs::metadata(place.dir.join(key))).map_or(false, |m| m.is_file() && input_files.contains(&(m.dev(), m.ino())))
                };
                let hard_copy = !is_output && matches!((b, a), (Some(Entry::File(..)), Some(Entry::File(..)))) && {
                    // another name of an output
                    use std::os::unix::fs::MetadataExt;
                    let id = |k: &str| cli::outside(|| std::fs::metadata(place.dir.join(k))).ok().map(|m| (m.dev(), m.ino()));
                    names.iter().any(|n| id(n).is_some() && id(n) == id(key))
                };
                ctx.check(created_folder || (is_output && !alias) || hard_copy, "other-file-changed", || {
                    let show = |e: Option<&Entry>| match e {
                        None => "nothing".to_string(),
                        Some(Entry::File(b, m)) => format!("a file of {} bytes, mode {:o}", b.len(), m),
                        Some(Entry::Dir) => "a folder".into(),
                        Some(Entry::Link(t)) => format!("a link to {}", t.display()),
                    };
                    format!("{}: {} became {}", key, show(b), show(a))
                })?;
            }
            ctx.check(!o.events.iter().any(|e| e.class == '!'), "outside", || format!("{:?}", o.events.iter().find(|e| e.class == '!')))?;
            // an output in the end is that of the first input reported with it
            cli::check_reports(ctx, &place, &o, &given, false)?;
            // unreadable inputs leave their earlier outputs alone
            for i in 0..w.inputs.len() {
                let Some(out) = &outputs[i] else { continue };
                let real = &resolved(out);
                let shared = (0..w.inputs.len()).any(|j| j != i && (outputs[j].as_ref().map_or(false, |o| o == out || resolved(o) == *real) || (output_ids[j].is_some() && output_ids[j] == output_ids[i]))) || real != out;
                if shared || cli::born(&place, i, &given) || names.contains(&place.key(&cli::normal(&place.input_file(i)))) {
                    continue;
                }
                let usable = given[i].as_ref().and_then(|c| cli::expected(&w.inputs[i], c, false)).is_some();
                let file = cli::outside(|| std::fs::canonicalize(place.input_file(i))).map(|p| place.key(&p)).unwrap_or_default();
                let last = o.events.iter().rev().find(|e| (e.class == 'o' || e.class == 'r') && e.path == file);
                let failed = last.map_or(false, |e| e.result < 0 && e.result != -(libc::EINTR as i64)) && (0..w.inputs.len()).all(|j| j == i || identity(&place.input_file(j)) != identity(&place.input_file(i)));
                if !usable || failed {
                    ctx.probe("unreadable input with output name");
                    if before.contains_key(out) {
                        ctx.probe("unreadable input with earlier output");
                    }
                    ctx.check(before.get(out) == after.get(out), "earlier-output-lost", || format!("{} could not be {}, but {} changed", w.inputs[i], if usable { "read" } else { "processed" }, out))?;
                }
            }
        }
        Ok(())
    }
}
