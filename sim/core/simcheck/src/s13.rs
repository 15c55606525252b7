//! C13: odd but harmless behaviour of the system calls, batches and options make no difference to
//! outputs, and each output is the watermark of its own input.
use crate::cli::{self, Entry, Fault, Scratch, What, World};
use crate::engine::{call, Ctx, Scenario, Violation};
use crate::interpose::{self, OutFault};
use crate::rng::{hash_bytes, mix, Rng};
use image::{DynamicImage, GrayImage};
use serde::{Deserialize, Serialize};
use watermarking::sim_hooks;

pub struct Faithful;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    world: World,
    faults: Vec<Fault>,
    alone: u64,
    real: bool,
    /// the library's own part, without the command around it
    #[serde(default, skip_serializing_if = "Option::is_none")]
    library: Option<Library>,
}

/// An image of any type for `watermark`, which writes to a misbehaving standard output meanwhile
#[derive(Serialize, Deserialize)]
struct Library {
    w: u32,
    h: u32,
    color: u8,
    seed: u64,
    depth: u64,
    step: u64,
    features: usize,
    output: Vec<(u64, u8)>,
}

impl Library {
    fn random(r: &mut Rng) -> Library {
        let (w, h) = r.pick(&[(216u32, 216u32), (224, 216), (216, 224), (192, 240), (240, 192), (288, 160), (160, 288)]);
        let output = (0..r.usize(0, 6)).map(|_| (r.log(1, 60) - 1, r.below(3) as u8)).collect();
        Library { w, h, color: r.below(10) as u8, seed: r.below(1 << 30), depth: r.pick(&[100, 100, 60, 200]), step: r.pick(&[1, 1, 4]), features: r.usize(1, 2), output }
    }
    fn image(&self) -> DynamicImage {
        match self.color % 10 {
            8 => cli::picture(self.seed, self.w, self.h, 1).to_luma_alpha16().into(),
            9 => cli::picture(self.seed, self.w, self.h, 4).to_rgba16().into(),
            c => cli::picture(self.seed, self.w, self.h, c),
        }
    }
    fn exec(&self, ctx: &mut Ctx) -> Result<(), Violation> {
        let image = self.image();
        let (depth, step) = (self.depth as f64, self.step as f64);
        let channels = |image: &DynamicImage| -> Vec<GrayImage> {
            let rgba = image.to_rgba8();
            (0..4).map(|c| GrayImage::from_fn(image.width(), image.height(), |x, y| image::Luma([rgba.get_pixel(x, y)[c]]))).collect()
        };
        let before = channels(&image);
        let n = if image.color().has_color() { 3 } else { 1 };
        let mut wanted = vec![];
        for c in &before[..n] {
            match call(|| sim_hooks::watermark_channel(c, depth, step, self.features, 3)) {
                Ok(m) => wanted.push(m),
                Err(_) => {
                    ctx.invalid = true;
                    return Ok(());
                }
            }
        }
        let faults = [OutFault::Short1, OutFault::ShortHalf, OutFault::Eintr];
        let script: Vec<_> = self.output.iter().map(|(a, f)| (*a, faults[*f as usize % 3])).collect();
        let fired = |k: usize| interpose::OUT_FIRED[k].load(std::sync::atomic::Ordering::Relaxed);
        let old: Vec<u64> = (0..3).map(fired).collect();
        interpose::set_out_script(&script);
        let out = call(|| watermarking::watermark(image.clone(), depth, step, self.features));
        interpose::set_out_script(&[]);
        for (k, name) in ["one byte written", "half written", "write interrupted"].iter().enumerate() {
            ctx.fault_n(name, fired(k) - old[k]);
        }
        ctx.nontrivial = true;
        ctx.probe(&format!("library {:?}", image.color()));
        let out = match out {
            Ok(o) => o,
            Err(p) => return ctx.check(false, "fails", || format!("{:?} {}x{}: {}", image.color(), self.w, self.h, p)),
        };
        ctx.ev(format!("library: {:?} {}x{} -> {:?}", image.color(), self.w, self.h, out.color()));
        let (a, b) = (out.color(), image.color());
        ctx.check((out.width(), out.height()) == (self.w, self.h), "dimensions", || format!("{}x{} became {}x{}", self.w, self.h, out.width(), out.height()))?;
        ctx.check(a.has_color() == b.has_color() && a.has_alpha() == b.has_alpha(), "colour-lost", || format!("{:?} became {:?}", b, a))?;
        let after = channels(&out);
        ctx.state(mix(hash_bytes(after[0].as_raw()), self.color as u64));
        for c in 0..n {
            ctx.check(after[c] == wanted[c], "not-its-watermark", || format!("{:?}: channel {} is not that channel watermarked", b, c))?;
        }
        ctx.check(!b.has_alpha() || after[3] == before[3], "alpha-changed", || format!("{:?}: alpha values changed", b))
    }
}

impl Scenario for Faithful {
    type Plan = Plan;
    const RULE: &'static str = "a run executes the command on 1..7 valid images under up to 8 harmless faults, undisturbed, and on one of the images alone, or the library's `watermark` on an image of any type; it is non-trivial when a fault took effect or there was more than one input";
    const REAL: &'static [&'static str] = cli::REAL;
    const STUBS: &'static [&'static str] = cli::STUBS;
    const ASSUMPTIONS: &'static [&'static str] = &["formats store what the image library stores in them; JPEG and GIF outputs are compared up to a small mean difference"];

    fn runs(&self) -> (u64, u64) {
        (12_000, 400_000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["seed", "w", "h", "color"]
    }
    fn plan(&self, r: &mut Rng, index: u64, thorough: bool) -> Plan {
        let real = index % 401 == 7 && (thorough || index < 12_000);
        let library = if index % 31 == 11 { Some(Library::random(r)) } else { None };
        let mut world = if real { cli::real_world(r) } else { cli::world(r, &cli::Taste { trouble: 0., clutter: 0., most: 7 }) };
        if r.chance(0.3) && !real {
            world = cli::occupied(r, world);
        }
        Plan { world, faults: [cli::mild(r, 8), cli::order(r, false)].concat(), alone: r.below(7), real, library }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Violation> {
        if let Some(l) = &plan.library {
            return l.exec(ctx);
        }
        let w = &plan.world;
        let s = Scratch::new();
        let place = s.create("a", w);
        let given = cli::contents(&place);
        let outputs: Vec<_> = (0..w.inputs.len()).map(|i| place.output(i)).collect();
        let files: Vec<_> = (0..w.inputs.len()).map(|i| cli::outside(|| std::fs::canonicalize(place.input_file(i)).unwrap_or_default())).collect();
        let wanted: Vec<_> = (0..w.inputs.len()).map(|i| given[i].as_ref().and_then(|c| cli::expected(&w.inputs[i], c, plan.real))).collect();
        let distinct = outputs.iter().collect::<std::collections::BTreeSet<_>>().len() == outputs.len();
        let collides = outputs.iter().flatten().any(|o| files.contains(o));
        if w.inputs.is_empty() || !distinct || collides || outputs.iter().any(|o| o.is_none()) || wanted.iter().any(|e| e.is_none()) {
            ctx.invalid = true;
            return Ok(());
        }
        let o = place.run(&plan.faults, plan.real);
        let after = place.tree();
        cli::log(ctx, &place, "run", &o, &after);
        ctx.nontrivial = !ctx.faults.is_empty() || w.inputs.len() > 1;
        ctx.check(o.status == Some(0), "fails", || format!("{}: {} {}", o.ending(), o.stdout, o.stderr))?;
        ctx.check(o.reports.len() == w.inputs.len(), "missing-report", || format!("{} reports of {} inputs", o.reports.len(), w.inputs.len()))?;
        cli::check_reports(ctx, &place, &o, &given, plan.real)?;
        for i in 0..w.inputs.len() {
            let e = wanted[i].as_ref().unwrap();
            let out = outputs[i].as_ref().unwrap();
            let ext = out.extension().unwrap().to_str().unwrap().to_string();
            ctx.probe(&format!("{} {:?}", ext.to_lowercase(), e.source.color()));
            let rep = &o.reports[i];
            ctx.check((rep.from, rep.to) == (e.from, e.to), "channels", || format!("{}: {} -> {} channels instead of {} -> {}", w.inputs[i], rep.from, rep.to, e.from, e.to))?;
            let content = cli::outside(|| std::fs::read(out).unwrap_or_default());
            let got = image::load_from_memory_with_format(&content, cli::format_of(&ext).unwrap());
            let Ok(got) = got else { continue };
            // against the input itself, not only against the expected output
            use image::GenericImageView;
            ctx.check(got.dimensions() == e.source.dimensions(), "dimensions", || format!("{}: {:?} instead of {:?}", w.inputs[i], got.dimensions(), e.source.dimensions()))?;
            let keeps = matches!(ext.to_lowercase().as_str(), "png" | "tiff" | "tif");
            if keeps {
                let (a, b) = (got.color(), e.source.color());
                ctx.check(a.has_color() == b.has_color() && a.has_alpha() == b.has_alpha(), "colour-lost", || format!("{}: {:?} became {:?}", w.inputs[i], b, a))?;
            }
            if got.color().has_alpha() && e.source.color().has_alpha() && ext.to_lowercase() != "gif" {
                let same = got.to_rgba8().pixels().zip(e.source.to_rgba8().pixels()).all(|(x, y)| x.0[3] == y.0[3]);
                ctx.check(same, "alpha-changed", || format!("{}: alpha values changed", w.inputs[i]))?;
            }
        }
        if plan.real {
            return Ok(());
        }
        // undisturbed
        let calm = s.create("b", w);
        let u = calm.run(&[], plan.real);
        let t = calm.tree();
        ctx.check(u.ending() == o.ending(), "ending-differs", || format!("{} undisturbed, {} under harmless faults", u.ending(), o.ending()))?;
        for (key, e) in &t {
            if let Entry::Link(_) = e {
                continue;
            }
            ctx.check(after.get(key) == Some(e), "output-differs", || format!("{} is not what an undisturbed run writes", key))?;
        }
        if plan.real {
            return Ok(());
        }
        // alone
        let i = plan.alone as usize % w.inputs.len();
        let mut lonely = w.clone();
        lonely.inputs = vec![w.inputs[i].clone()];
        // where nothing lies at its place
        let own = place.key(outputs[i].as_ref().unwrap());
        lonely.nodes.retain(|n| n.path != own);
        let place = s.create("c", &lonely);
        let u = place.run(&[], plan.real);
        let (x, y) = (place.output(0).unwrap(), outputs[i].as_ref().unwrap());
        ctx.ev(format!("alone: {} -> {}", w.inputs[i], u.ending()));
        let (x, y) = cli::outside(|| (std::fs::read(x).ok(), std::fs::read(y).ok()));
        ctx.check(x.is_some() && x == y, "batch-matters", || format!("{} alone gives another output, in an empty place, than as input {} of {}", w.inputs[i], i + 1, w.inputs.len()))?;
        let _ = What::Dir;
        Ok(())
    }
}
