//! The command line under the simulator: its real binary runs in a scratch folder, and the shim
//! between it and the operating system (sim/cli/shim.c) decides what every call does.
use crate::engine::{call, Ctx};
use crate::interpose;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use image::{DynamicImage, ImageFormat};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;

#[path = "../../../cli/stub-watermarking/src/lib.rs"]
#[allow(dead_code)]
mod stub;

pub const REAL: &[&str] = &["cli (its unchanged binary)", "getopts", "image", "standard library", "file system of the sandbox in a scratch folder"];
pub const STUBS: &[&str] = &[
    "watermarking: a cheap content-dependent transformation with the same interface, except in the runs with the real one",
    "system calls on files, standard output, clocks and entropy: passed through a shim with an explicit fault plan",
    "time: simulated, passes only by the durations in the plan",
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct World {
    pub nodes: Vec<Node>,
    pub inputs: Vec<String>,
    pub suffix: Option<String>,
    pub out: Option<String>,
    /// how options are spelled and where they stand
    pub style: u8,
    pub cwd: String,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Node {
    pub path: String,
    pub what: What,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    Image { seed: u64, w: u32, h: u32, color: u8, format: String },
    /// The first part (of 1000) of an image
    Torn { seed: u64, part: u64, format: String },
    Bytes { seed: u64, n: usize },
    Dir,
    Link { to: String },
    Hard { to: String },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fault {
    pub class: char,
    pub nth: u64,
    pub kind: char,
    pub value: i64,
}

pub fn format_of(ext: &str) -> Option<ImageFormat> {
    ImageFormat::from_extension(ext)
}

pub fn picture(seed: u64, w: u32, h: u32, color: u8) -> DynamicImage {
    let mut r = Rng::new(seed);
    let p: Vec<f64> = (0..12).map(|_| r.f()).collect();
    let alpha = r.below(3);
    let v = |x: u32, y: u32, c: usize| {
        let s = 60. + 120. * p[c] + 40. * ((x as f64 * (0.03 + 0.2 * p[c + 3]) + p[c + 6] * 6.).sin() * (y as f64 * (0.03 + 0.2 * p[c + 2])).cos());
        s.clamp(20., 235.) as u8
    };
    let a = |x: u32, y: u32| match alpha {
        0 => 255,
        1 => if (x / 3 + y / 2) % 3 == 0 { 0 } else { 255 },
        _ => (40 + (x * 7 + y * 11) % 200) as u8,
    };
    use image::*;
    match color % 8 {
        0 => GrayImage::from_fn(w, h, |x, y| Luma([v(x, y, 0)])).into(),
        1 => GrayAlphaImage::from_fn(w, h, |x, y| LumaA([v(x, y, 0), a(x, y)])).into(),
        2 | 3 => RgbImage::from_fn(w, h, |x, y| Rgb([v(x, y, 0), v(x, y, 1), v(x, y, 2)])).into(),
        4 | 5 => RgbaImage::from_fn(w, h, |x, y| Rgba([v(x, y, 0), v(x, y, 1), v(x, y, 2), a(x, y)])).into(),
        6 => DynamicImage::from(RgbImage::from_fn(w, h, |x, y| Rgb([v(x, y, 0), v(x, y, 1), v(x, y, 2)]))).to_rgb16().into(),
        _ => DynamicImage::from(GrayImage::from_fn(w, h, |x, y| Luma([v(x, y, 0)]))).to_luma16().into(),
    }
}

pub fn encode(img: &DynamicImage, f: ImageFormat) -> Option<Vec<u8>> {
    let mut c = Cursor::new(vec![]);
    match call(|| img.write_to(&mut c, f)) {
        Ok(Ok(())) => Some(c.into_inner()),
        _ => None,
    }
}

impl What {
    fn bytes(&self) -> Vec<u8> {
        match self {
            What::Image { seed, w, h, color, format } => {
                let f = format_of(format).unwrap_or(ImageFormat::Png);
                // the library reads no netpbm images with alpha
                let color = if f == ImageFormat::Pnm && [1, 4, 5].contains(&(color % 8)) { 2 } else { *color };
                let img = picture(*seed, (*w).clamp(1, 400), (*h).clamp(1, 400), color);
                encode(&img, f).or_else(|| encode(&DynamicImage::from(img.to_rgb8()), f)).unwrap_or_default()
            }
            What::Torn { seed, part, format } => {
                let mut b = What::Image { seed: *seed, w: 16, h: 12, color: (*seed % 8) as u8, format: format.clone() }.bytes();
                b.truncate(b.len() * (*part as usize).min(999) / 1000);
                b
            }
            What::Bytes { seed, n } => Rng::new(*seed).bytes(*n),
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    File(Vec<u8>, u32),
    Dir,
    Link(PathBuf),
}
pub type Tree = BTreeMap<String, Entry>;

pub struct Scratch {
    pub root: PathBuf,
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let was = interpose::SIM.swap(false, SeqCst);
        let _ = std::fs::remove_dir_all(&self.root);
        interpose::SIM.store(was, SeqCst);
    }
}

pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = interpose::SIM.swap(false, SeqCst);
    let r = f();
    interpose::SIM.store(was, SeqCst);
    r
}

impl Scratch {
    pub fn new() -> Scratch {
        outside(|| {
            let base = if std::fs::metadata("/dev/shm").map_or(false, |m| m.is_dir()) { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
            let root = base.join(format!("sia-sim-{:08}", std::process::id()));
            let _ = std::fs::remove_dir_all(&root);
            std::fs::create_dir_all(&root).expect("scratch folder");
            Scratch { root: std::fs::canonicalize(root).unwrap() }
        })
    }
    /// Creates the world in a new folder of the scratch folder
    pub fn create(&self, name: &str, world: &World) -> Place {
        outside(|| {
            let dir = self.root.join(name);
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(dir.join(&world.cwd)).unwrap();
            for n in &world.nodes {
                let p = dir.join(&n.path);
                if let Some(parent) = p.parent() {
                    let _ = std::fs::create_dir_all(parent);
                }
                let _ = match &n.what {
                    What::Dir => std::fs::create_dir_all(&p),
                    What::Link { to } => symlink(to, &p),
                    What::Hard { to } => std::fs::hard_link(dir.join(to), &p),
                    w => {
                        // an alias stays an alias
                        if std::fs::symlink_metadata(&p).is_err() { std::fs::write(&p, w.bytes()) } else { Ok(()) }
                    }
                };
            }
            Place { dir, world: world.clone() }
        })
    }
}

pub struct Place {
    pub dir: PathBuf,
    pub world: World,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub class: char,
    pub nth: u64,
    pub what: String,
    pub path: String,
    pub result: i64,
    pub detail: String,
    pub time: i64,
}
#[derive(Clone, Debug)]
pub struct Report {
    pub path: String,
    pub from: u64,
    pub to: u64,
    pub time: String,
    /// events of the trace that wrote the first and the last byte of the line
    pub first: usize,
    pub last: usize,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub events: Vec<Event>,
    pub reports: Vec<Report>,
}
impl Outcome {
    pub fn ending(&self) -> String {
        match (self.status, self.signal) {
            (Some(s), _) => format!("status {}", s),
            (_, Some(s)) => format!("signal {}", s),
            _ => "no end".into(),
        }
    }
}

fn binary(real: bool) -> PathBuf {
    let root = std::env::var("SIM_ROOT").unwrap_or("/verif".into());
    Path::new(&root).join("target/cli/release").join(if real { "cli-real" } else { "cli-stub" })
}

impl World {
    pub fn arguments(&self) -> Vec<String> {
        let mut options = vec![];
        let (s, o) = (self.suffix.clone(), self.out.clone());
        match self.style % 4 {
            0 => {
                s.map(|s| options.extend(["-s".to_string(), s]));
                o.map(|o| options.extend(["-o".to_string(), o]));
            }
            1 => {
                o.map(|o| options.extend(["-o".to_string(), o]));
                s.map(|s| options.extend(["-s".to_string(), s]));
            }
            _ => {
                s.map(|s| if s.is_empty() { options.extend(["-s".to_string(), s]) } else { options.push(format!("-s{}", s)) });
                o.map(|o| options.push(format!("-o{}", o)));
            }
        }
        let inputs = self.inputs.clone();
        let guard = inputs.iter().any(|i| i.starts_with('-'));
        match (guard, self.style / 4 % 3) {
            (false, 1) => [inputs, options].concat(),
            (false, 2) if inputs.len() > 1 => [inputs[..1].to_vec(), options, inputs[1..].to_vec()].concat(),
            _ => [options, vec!["--".into()], inputs].concat(),
        }
    }
    /// The output of an input as its name says, relative to the world's folder where possible
    pub fn output_of(&self, place: &Path, input: &str) -> Option<PathBuf> {
        let p = Path::new(input);
        let name = format!("{}-{}.{}", p.file_stem()?.to_str()?, self.suffix.as_ref()?, p.extension()?.to_str()?);
        let cwd = place.join(&self.cwd);
        let dir = match &self.out {
            Some(o) => cwd.join(o),
            None => cwd,
        };
        Some(normal(&dir.join(name)))
    }
}

/// The path with the part that exists resolved, except its last name
pub fn normal(p: &Path) -> PathBuf {
    let name = match p.file_name() {
        Some(n) => n.to_owned(),
        None => return p.to_path_buf(),
    };
    let mut dir = p.parent().map(|d| d.to_path_buf()).unwrap_or_default();
    let mut rest = vec![];
    loop {
        if let Ok(c) = std::fs::canonicalize(&dir) {
            let mut out = c;
            for r in rest.iter().rev() {
                match r {
                    Some(r) => out.push(r),
                    None => {
                        out.pop();
                    }
                }
            }
            out.push(name);
            return out;
        }
        let last: Option<std::ffi::OsString> = match dir.components().last() {
            Some(std::path::Component::Normal(n)) => Some(n.to_owned()),
            Some(std::path::Component::ParentDir) => None,
            _ => return p.to_path_buf(),
        };
        rest.push(last);
        match dir.parent() {
            Some(d) => dir = d.to_path_buf(),
            None => return p.to_path_buf(),
        }
    }
}

fn parse_events(text: &str) -> Vec<Event> {
    text.lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() < 8 {
                return None;
            }
            Some(Event {
                class: f[1].chars().next()?,
                nth: f[2].parse().ok()?,
                what: f[3].into(),
                path: f[4].into(),
                result: f[5].parse().ok()?,
                detail: f[6].into(),
                time: f[7].parse().ok()?,
            })
        })
        .collect()
}

/// Complete lines that report a watermarked image
fn parse_reports(stdout: &str, events: &[Event]) -> Vec<Report> {
    // byte position -> event
    let mut ends = vec![];
    let mut at = 0;
    for (i, e) in events.iter().enumerate() {
        if e.class == 'p' && e.result > 0 {
            at += e.result as usize;
            ends.push((at, i));
        }
    }
    let event_of = |pos: usize| ends.iter().find(|(end, _)| pos < *end).map_or(events.len(), |x| x.1);
    let mut out = vec![];
    let mut start = 0;
    for line in stdout.split_inclusive('\n') {
        let (from, to) = (start, start + line.len());
        start = to;
        if !line.ends_with('\n') {
            continue;
        }
        let line = line.trim_end_matches('\n');
        // what ends in the middle of a line
        let Some(at) = line.find("Watermarked ") else { continue };
        let rest = &line[at + 12..];
        let Some(open) = rest.rfind(" (") else { continue };
        let Some(close) = rest.rfind(" channels) in ") else { continue };
        if open >= close {
            continue;
        }
        let mut n = rest[open + 2..close].split(" -> ").map(|x| x.parse::<u64>());
        if let (Some(Ok(a)), Some(Ok(b)), None) = (n.next(), n.next(), n.next()) {
            out.push(Report { path: rest[..open].into(), from: a, to: b, time: rest[close + 14..].into(), first: event_of(from + at), last: event_of(to - 1) });
        }
    }
    out
}

impl Place {
    pub fn tree(&self) -> Tree {
        fn walk(base: &Path, dir: &Path, out: &mut Tree) {
            let mut list: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
            list.sort();
            for p in list {
                let m = match std::fs::symlink_metadata(&p) {
                    Ok(m) => m,
                    Err(_) => continue,
                };
                let key = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
                if m.file_type().is_symlink() {
                    out.insert(key, Entry::Link(std::fs::read_link(&p).unwrap_or_default()));
                } else if m.is_dir() {
                    out.insert(key, Entry::Dir);
                    walk(base, &p, out);
                } else {
                    out.insert(key, Entry::File(std::fs::read(&p).unwrap_or_default(), m.permissions().mode()));
                }
            }
        }
        outside(|| {
            let mut t = Tree::new();
            walk(&self.dir, &self.dir, &mut t);
            t
        })
    }
    pub fn output(&self, i: usize) -> Option<PathBuf> {
        outside(|| self.world.output_of(&self.dir, &self.world.inputs[i]))
    }
    /// Relative to the folder of the world
    pub fn key(&self, p: &Path) -> String {
        p.strip_prefix(&self.dir).unwrap_or(p).to_string_lossy().to_string()
    }
    /// The real file behind an input, as it is now
    pub fn input_file(&self, i: usize) -> PathBuf {
        self.dir.join(&self.world.cwd).join(&self.world.inputs[i])
    }
    pub fn run(&self, faults: &[Fault], real: bool) -> Outcome {
        outside(|| {
            let trace = self.dir.with_extension("trace");
            let _ = std::fs::remove_file(&trace);
            let plan: Vec<String> = faults.iter().map(|f| format!("{} {} {} {}", f.class, f.nth, f.kind, f.value)).collect();
            let root = std::env::var("SIM_ROOT").unwrap_or("/verif".into());
            let mut c = Command::new(binary(real));
            c.args(self.world.arguments())
                .env_clear()
                .env("LD_PRELOAD", format!("{}/target/cli/shim.so", root))
                .env("SIM_DIR", &self.dir)
                .env("SIM_FAULTS", plan.join(";"))
                .env("SIM_TRACE", &trace)
                .env("RAYON_NUM_THREADS", "1")
                .env("RUST_BACKTRACE", "0")
                .current_dir(self.dir.join(&self.world.cwd))
                .stdin(Stdio::null());
            unsafe {
                c.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    let cpu = libc::rlimit { rlim_cur: 30, rlim_max: 31 };
                    libc::setrlimit(libc::RLIMIT_CPU, &cpu);
                    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &core);
                    Ok(())
                });
            }
            let out = c.output().unwrap_or_else(|e| crate::engine::harness_error(&format!("cannot run the command line: {}", e)));
            if matches!(out.status.code(), Some(96..=98)) {
                crate::engine::harness_error("the shim refused to start");
            }
            let events = parse_events(&String::from_utf8_lossy(&std::fs::read(&trace).unwrap_or_default()));
            let _ = std::fs::remove_file(&trace);
            let stdout = String::from_utf8_lossy(&out.stdout).to_string();
            let reports = parse_reports(&stdout, &events);
            Outcome { status: out.status.code(), signal: out.status.signal(), stderr: String::from_utf8_lossy(&out.stderr).to_string(), stdout, events, reports }
        })
    }
}

/// What the output of an input has to be: the decoded image, whether its format keeps pixels exactly,
/// and the channels before and after
#[derive(Clone)]
pub struct Expected {
    pub image: DynamicImage,
    pub exact: bool,
    pub from: u64,
    pub to: u64,
    /// alpha values of the input as the output's format keeps them
    pub source: DynamicImage,
    /// of the output as the image library writes it
    pub length: usize,
}
pub fn expected(input_name: &str, content: &[u8], real: bool) -> Option<Expected> {
    thread_local! {
        static KNOWN: std::cell::RefCell<BTreeMap<(String, u64, bool), Option<Expected>>> = const { std::cell::RefCell::new(BTreeMap::new()) };
    }
    let key = (input_name.to_string(), hash_bytes(content), real);
    if let Some(e) = KNOWN.with(|k| k.borrow().get(&key).cloned()) {
        return e;
    }
    let e = compute_expected(input_name, content, real);
    KNOWN.with(|k| k.borrow_mut().insert(key, e.clone()));
    e
}
fn compute_expected(input_name: &str, content: &[u8], real: bool) -> Option<Expected> {
    let ext = Path::new(input_name).extension()?.to_str()?.to_string();
    let f = format_of(&ext)?;
    let source = call(|| image::load_from_memory_with_format(content, f).ok()).ok()??;
    let marked = call(|| if real { watermarking::watermark(source.clone(), 100., 1., 11) } else { stub::watermark(source.clone(), 100., 1., 11) }).ok()?;
    let bytes = encode(&marked, f)?;
    let image = call(|| image::load_from_memory_with_format(&bytes, f).ok()).ok()??;
    let exact = !matches!(f, ImageFormat::Jpeg | ImageFormat::Gif);
    Some(Expected { from: source.color().channel_count() as u64, to: marked.color().channel_count() as u64, image, exact, source, length: bytes.len() })
}

/// Compares an output with what it has to be
pub fn matches(name: &str, content: &[u8], e: &Expected) -> Result<(), String> {
    let ext = Path::new(name).extension().and_then(|e| e.to_str()).unwrap_or("").to_string();
    let f = format_of(&ext).ok_or("unknown extension")?;
    match image::guess_format(content) {
        Ok(g) if g == f => {}
        g => return Err(format!("its format is {:?} and not that of its extension", g.ok())),
    }
    let got = match call(|| image::load_from_memory_with_format(content, f)) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return Err(format!("it cannot be decoded: {}", e)),
        Err(p) => return Err(format!("it cannot be decoded: {}", p)),
    };
    if (got.width(), got.height()) != (e.image.width(), e.image.height()) {
        return Err(format!("it has {}x{} pixels instead of {}x{}", got.width(), got.height(), e.image.width(), e.image.height()));
    }
    if got.color() != e.image.color() {
        return Err(format!("its pixels are {:?} instead of {:?}", got.color(), e.image.color()));
    }
    if e.exact {
        if got.as_bytes() != e.image.as_bytes() {
            return Err("its pixels are not those of the watermarked input".into());
        }
    } else {
        let (a, b) = (got.to_rgba8(), e.image.to_rgba8());
        let mean = a.iter().zip(b.iter()).map(|(x, y)| (*x as f64 - *y as f64).abs()).sum::<f64>() / a.len().max(1) as f64;
        if mean > 3. {
            return Err(format!("its pixels differ by {:.1} on average from those of the watermarked input", mean));
        }
        if a.pixels().zip(b.pixels()).any(|(x, y)| x.0[3] != y.0[3]) {
            return Err("its alpha values changed".into());
        }
    }
    Ok(())
}

/// The inputs' contents before a run
pub fn contents(place: &Place) -> Vec<Option<Vec<u8>>> {
    outside(|| (0..place.world.inputs.len()).map(|i| std::fs::read(place.input_file(i)).ok()).collect())
}

/// Whether an event changed what the file of this name holds
pub fn changes(e: &Event, key: &str) -> bool {
    e.path == key
        && match e.what.as_str() {
            "create" | "truncate" | "rename" | "unlink" | "link" | "symlink" => e.result >= 0,
            "write" => e.result > 0,
            _ => false,
        }
}

/// Whether an input that was missing before a run is an output of it; to be asked after the run
pub fn born(place: &Place, k: usize, given: &[Option<Vec<u8>>]) -> bool {
    given[k].is_none() && {
        let file = place.input_file(k);
        let real = |p: &Path| outside(|| std::fs::canonicalize(p)).ok();
        (0..place.world.inputs.len()).filter_map(|i| place.output(i)).any(|o| o == normal(&file) || (real(&o).is_some() && real(&o) == real(&file)))
    }
}

/// Every report is about the inputs in their order, and true: the output it names is complete when it
/// is printed and stays so. `now` is the moment the files are looked at.
pub fn check_reports(ctx: &mut Ctx, place: &Place, o: &Outcome, given: &[Option<Vec<u8>>], real: bool) -> Result<(), crate::engine::Violation> {
    for (k, rep) in o.reports.iter().enumerate() {
        ctx.probe("report");
        ctx.check(k < given.len(), "report-of-nothing", || format!("report {} of {} inputs: {}", k + 1, given.len(), rep.path))?;
        let input = &place.world.inputs[k];
        let target = place.output(k);
        let named = outside(|| normal(&place.dir.join(&place.world.cwd).join(&rep.path)));
        ctx.check(target.as_ref() == Some(&named), "report-of-other-file", || format!("report {} names {} and not the output {:?} of {}", k + 1, rep.path, target, input))?;
        let target = target.unwrap();
        if born(place, k, given) {
            ctx.probe("report of an input that the run created");
            continue;
        }
        let e = given[k].as_ref().and_then(|c| expected(input, c, real));
        ctx.check(e.is_some(), "report-of-unusable-input", || format!("{} was reported, which is no image that can be watermarked", input))?;
        let content = outside(|| std::fs::read(&target));
        let verdict = content.as_ref().map_err(|e| e.to_string()).and_then(|c| matches(input, c, e.as_ref().unwrap()));
        ctx.check(verdict.is_ok(), "report-untrue", || format!("{} was reported as watermarked to {}, but {}", input, place.key(&target), verdict.unwrap_err()))?;
        let (content, length) = (content.unwrap_or_default(), e.as_ref().unwrap().length);
        for n in place.world.nodes.iter().filter(|n| n.path == place.key(&target)) {
            let before = n.what.bytes();
            let remains = before.len() >= length + 8 && content.len() == before.len() && content[length..] == before[length..];
            ctx.check(!remains, "report-untrue", || format!("{} was reported as watermarked to {}, but that still ends with what was there before", input, place.key(&target)))?;
        }
        let file = outside(|| std::fs::canonicalize(&target)).map(|f| place.key(&f)).unwrap_or_default();
        let late = o.events.iter().enumerate().skip(rep.first).find(|(_, e)| changes(e, &file) || changes(e, &place.key(&target)));
        ctx.check(late.is_none(), "report-early", || format!("{} was reported before {:?}", input, late.unwrap().1))?;
    }
    Ok(())
}

pub fn log(ctx: &mut Ctx, place: &Place, title: &str, o: &Outcome, after: &Tree) {
    let strip = |s: &str| anonymous(&s.replace(place.dir.to_str().unwrap(), ""));
    ctx.ev(format!("{}: {:?} -> {}", title, place.world.arguments(), o.ending()));
    for e in &o.events {
        // messages of panics contain the number of the thread
        let result = if e.class == 'b' { e.result.signum() } else { e.result };
        ctx.ev(format!("  {} {} {} {} {} {} {}", e.class, e.nth, e.what, e.path, result, e.detail, e.time));
        if !e.detail.is_empty() && !e.detail.starts_with("killed") {
            for (c, name) in [('s', "short transfer"), ('d', "slow call"), ('w', "wall clock step")] {
                if e.detail.contains(c) && (c != 's' || e.detail.contains("s")) {
                    ctx.fault(&format!("{} ({})", name, class_name(e.class)));
                }
            }
            if e.detail.contains("full") {
                ctx.fault("disk full");
            }
            if e.detail.contains('e') {
                ctx.fault(&format!("{} ({})", if e.result == -(libc::EINTR as i64) { "interrupted" } else { "failed" }, class_name(e.class)));
            }
        }
        if e.detail.starts_with("killed") {
            ctx.fault(&format!("{} ({})", e.detail, class_name(e.class)));
        }
        if e.class == '!' {
            ctx.fault("refused change outside the folder");
        }
    }
    for l in o.stdout.lines() {
        ctx.ev(format!("  out: {}", strip(l)));
    }
    for l in o.stderr.lines().filter(|l| !l.starts_with("note:") && !l.starts_with("thread ")) {
        ctx.ev(format!("  err: {}", strip(l)));
    }
    let h = after.iter().fold(0, |h, (k, v)| {
        let c = match v {
            Entry::File(b, m) => mix(hash_bytes(b), *m as u64),
            Entry::Dir => 1,
            Entry::Link(t) => hash_str(&strip(&t.to_string_lossy())),
        };
        mix(h, mix(hash_str(k), c))
    });
    ctx.ev(format!("  files {:x}", h));
    let shape = o.events.iter().fold(0, |h, e| mix(h, hash_str(&format!("{}{}{}{}", e.class, e.what, e.result < 0, e.detail))));
    ctx.state(mix(shape, h));
    if let Some(e) = o.events.last() {
        ctx.sim_us += ((e.time - 1_000_000_000_000).max(0) / 1000) as u64;
    }
}

/// Without the number of the scratch folder, also where the output ends within it
fn anonymous(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(at) = rest.find("sia-sim-") {
        out.push_str(&rest[..at + 8]);
        rest = rest[at + 8..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    out + rest
}

pub fn class_name(c: char) -> &'static str {
    match c {
        'o' => "open input",
        'c' => "create file",
        'r' => "read",
        'w' => "write",
        'p' => "standard output",
        'b' => "standard error",
        'd' => "create folder",
        'x' => "close",
        'f' => "sync",
        'n' => "rename or remove",
        's' => "computing",
        't' => "clock",
        'a' => "allocation",
        'h' => "thread",
        _ => "outside",
    }
}

// --------------------------------------------------------------------------------------------
// Worlds
pub const EXTENSIONS: [&str; 10] = ["png", "bmp", "gif", "jpg", "jpeg", "tiff", "tif", "ppm", "pgm", "PNG"];
const STEMS: [&str; 9] = ["a", "b", "photo", "two words", "dotted.name", "ünï", "-dash", "a-w", ".hidden"];
pub const SUFFIXES: [&str; 6] = ["w", "marked", "x.y", "ü", "w-w", "1"];

pub struct Taste {
    /// how many inputs can be broken, missing or colliding
    pub trouble: f64,
    /// existing outputs, links and bystanders
    pub clutter: f64,
    pub most: usize,
}

pub fn world(r: &mut Rng, taste: &Taste) -> World {
    let mut nodes: Vec<Node> = vec![];
    let mut inputs = vec![];
    let cwd = r.pick(&["", "", "here", "here"]).to_string();
    let up = if cwd.is_empty() { "" } else { "../" };
    let suffix = r.pick(&SUFFIXES).to_string();
    // rarely many inputs, rarely large ones
    let rare = r.below(60);
    let count = if rare < 2 { r.usize(7, 24) } else { r.usize(1, taste.most) };
    let same = r.chance(0.2);
    let ext0 = r.pick(&EXTENSIONS);
    for i in 0..count {
        let mut stem = r.pick(&STEMS).to_string();
        if r.chance(0.5) && !same {
            stem = format!("{}{}", stem, i);
        }
        if r.chance(0.12) {
            // named like an output
            stem = format!("{}-{}", stem, suffix);
        }
        let ext = if same { ext0 } else { r.pick(&EXTENSIONS) };
        let dir = r.pick(&["", "", "", "in/", "in/deep/", "../other/", "@/abs/"]);
        let name = format!("{}.{}", stem, ext);
        let (arg, path) = match dir {
            "../other/" if !cwd.is_empty() => (format!("../other/{}", name), format!("other/{}", name)),
            // an absolute path is made by the caller when the folder is known; a relative one leads the same way
            "@/abs/" => (format!("{}abs/{}", up, name), format!("abs/{}", name)),
            "in/" | "in/deep/" => (format!("{}{}", dir, name), join(&cwd, &format!("{}{}", dir, name))),
            _ => (name.clone(), join(&cwd, &name)),
        };
        let what = if r.chance(taste.trouble) {
            match r.below(6) {
                0 => What::Torn { seed: r.below(50), part: r.below(999), format: ext.to_lowercase() },
                1 => What::Bytes { seed: r.below(50), n: r.usize(0, 60) },
                2 => What::Image { seed: r.below(50), w: 1, h: 1, color: r.below(8) as u8, format: ext.to_lowercase() },
                3 => What::Image { seed: r.below(50), w: 9, h: 9, color: r.below(8) as u8, format: r.pick(&["png", "bmp", "gif"]).into() },
                4 => What::Dir,
                _ => {
                    // missing
                    inputs.push(arg);
                    continue;
                }
            }
        } else {
            let big = r.chance(0.15);
            let most = if big && rare == 3 { 400 } else if big { 120 } else { 24 };
            What::Image { seed: r.below(1000), w: r.usize(2, most) as u32, h: r.usize(2, most) as u32, color: r.below(8) as u8, format: ext.to_lowercase() }
        };
        if !nodes.iter().any(|n| n.path == path) {
            nodes.push(Node { path: path.clone(), what });
        } else if r.chance(0.5) {
            // the same file twice
            if !r.chance(taste.trouble) {
                continue;
            }
        }
        if r.chance(taste.clutter * 0.3) {
            // given through an alias
            let alias = join(&cwd, &format!("alias{}.{}", i, ext));
            let hard = r.chance(0.4);
            nodes.push(Node { path: alias.clone(), what: if hard { What::Hard { to: path.clone() } } else { What::Link { to: format!("{}{}", up, path) } } });
            inputs.push(format!("alias{}.{}", i, ext));
            if r.chance(0.3) && r.chance(taste.trouble) {
                inputs.push(arg);
            }
        } else {
            inputs.push(arg);
        }
    }
    if r.chance(taste.trouble * 0.3) && !inputs.is_empty() {
        let again = r.pick(&inputs);
        inputs.push(again);
    }
    if inputs.is_empty() {
        inputs.push("nothing.png".into());
    }
    let out = match r.below(10) {
        0..=2 => None,
        3 => Some(".".to_string()),
        4 => Some("out".into()),
        5 => Some("out/nested/deep".into()),
        6 => {
            nodes.push(Node { path: join(&cwd, "out"), what: What::Dir });
            Some("out/".into())
        }
        7 => Some(format!("{}abs", up)),
        8 => {
            nodes.push(Node { path: join(&cwd, "outdir"), what: What::Dir });
            nodes.push(Node { path: join(&cwd, "out"), what: What::Link { to: "outdir".into() } });
            Some("out".into())
        }
        _ => Some("../out".to_string()).filter(|_| !cwd.is_empty()).or(Some("in".into())),
    };
    if let Some(o) = &out {
        if r.chance(taste.trouble * 0.2) {
            let p = lexical(&join(&cwd, o));
            if !nodes.iter().any(|n| n.path.starts_with(&p)) {
                nodes.push(Node { path: p, what: What::Bytes { seed: 5, n: 20 } });
            }
        }
    }
    let mut w = World { nodes, inputs, suffix: Some(suffix), out, style: r.below(12) as u8, cwd };
    // what already lies at the outputs and next to them
    for i in 0..w.inputs.len() {
        if !r.chance(taste.clutter) {
            continue;
        }
        let input = w.inputs[i].clone();
        let Some(name) = output_name(&w, &input) else { continue };
        let dir = lexical(&join(&w.cwd, w.out.as_deref().unwrap_or("")));
        let p = join(&dir, &name);
        let depth = dir.split('/').filter(|s| !s.is_empty()).count();
        let others: Vec<String> = w.nodes.iter().filter(|n| matches!(n.what, What::Image { .. })).map(|n| n.path.clone()).collect();
        let what = match r.below(8) {
            0 if !others.is_empty() => What::Link { to: format!("{}{}", "../".repeat(depth), r.pick(&others)) },
            1 if !others.is_empty() => What::Hard { to: r.pick(&others) },
            2 => What::Dir,
            3 => What::Image { seed: 7000 + i as u64, w: 60, h: 70, color: 4, format: "png".into() },
            // as long as the output, but of another image
            5 => alike(&w, &input).unwrap_or(What::Bytes { seed: i as u64, n: 900 }),
            // through another output
            4 => match w.inputs.get(r.below(w.inputs.len() as u64) as usize).and_then(|o| output_name(&w, o)) {
                Some(other) if other != name => What::Link { to: other },
                _ => What::Bytes { seed: i as u64, n: 300 },
            },
            _ => What::Bytes { seed: i as u64, n: r.usize(0, 3000) },
        };
        // a dangling link would name a further file
        if let What::Link { to } = &what {
            if !to.contains('/') || depth == 0 {
                let target = join(&dir, to);
                if !w.nodes.iter().any(|n| n.path == target) {
                    w.nodes.push(Node { path: target, what: What::Bytes { seed: 99, n: 50 } });
                }
            }
        }
        if !w.nodes.iter().any(|n| n.path == p) {
            w.nodes.push(Node { path: p, what });
        }
        if r.chance(0.4) {
            let by = join(&dir, &r.pick(&["bystander.txt", "a.png.tmp", "x.bak", ".a.tmp", "tmp/x"]));
            if !w.nodes.iter().any(|n| n.path == by) {
                w.nodes.push(Node { path: by, what: What::Bytes { seed: 1, n: 40 } });
            }
        }
    }
    w
}

fn output_name(w: &World, input: &str) -> Option<String> {
    let p = Path::new(input);
    Some(format!("{}-{}.{}", p.file_stem()?.to_str()?, w.suffix.as_ref()?, p.extension()?.to_str()?))
}

/// Another image of the size and kind of an input
fn alike(w: &World, input: &str) -> Option<What> {
    let at = lexical(&join(&w.cwd, input));
    w.nodes.iter().find(|n| n.path == at).and_then(|n| match &n.what {
        What::Image { seed, w, h, color, format } => Some(What::Image { seed: seed + 5000, w: *w, h: *h, color: *color, format: format.clone() }),
        _ => None,
    })
}

pub fn join(a: &str, b: &str) -> String {
    if a.is_empty() { b.into() } else { format!("{}/{}", a.trim_end_matches('/'), b) }
}
pub fn lexical(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            s => out.push(s),
        }
    }
    out.join("/")
}

pub const ERRNOS: [i64; 8] = [libc::EIO as i64, libc::ENOSPC as i64, libc::EACCES as i64, libc::EDQUOT as i64, libc::EROFS as i64, libc::ENFILE as i64, libc::ESTALE as i64, libc::EFBIG as i64];

/// Faults that a program has to cope with without failing
pub fn mild(r: &mut Rng, most: u64) -> Vec<Fault> {
    (0..r.below(most + 1))
        .map(|_| match r.below(9) {
            0 => Fault { class: 'r', nth: r.log(1, 30) - 1, kind: 's', value: r.log(1, 500) as i64 },
            1 => Fault { class: 'w', nth: r.log(1, 8) - 1, kind: 's', value: r.log(1, 2000) as i64 },
            2 => Fault { class: 'r', nth: 0, kind: 'S', value: r.pick(&[1, 3, 7, 100, 512]) },
            3 => Fault { class: 'w', nth: 0, kind: 'S', value: r.pick(&[1, 5, 64, 100, 4096]) },
            4 => Fault { class: r.pick(&['w', 'p', 'w']), nth: r.log(1, 8) - 1, kind: 'e', value: libc::EINTR as i64 },
            5 => Fault { class: 'p', nth: r.log(1, 12) - 1, kind: 's', value: r.log(1, 60) as i64 },
            6 => Fault { class: r.pick(&['o', 'c']), nth: r.log(1, 6) - 1, kind: 'e', value: libc::EINTR as i64 },
            7 => Fault { class: 'r', nth: r.log(1, 30) - 1, kind: 'e', value: libc::EINTR as i64 },
            _ => Fault { class: r.pick(&['r', 'w', 'o', 'c', 'p', 's', 'x', 't']), nth: r.log(1, 10) - 1, kind: r.pick(&['d', 'w']), value: r.log(1, 20_000_000_000) as i64 },
        })
        .collect()
}

/// The order of threads, if the command has any, and whether they can be started
pub fn order(r: &Rng, harsh: bool) -> Vec<Fault> {
    let mut r = Rng::new(r.clone().u64());
    let mut f = vec![];
    if r.chance(0.8) {
        f.push(Fault { class: 'u', nth: 0, kind: 's', value: r.range(1, 100_000) as i64 });
    }
    if harsh && r.chance(0.1) {
        f.push(Fault { class: 'h', nth: r.below(4), kind: r.pick(&['e', 'E']), value: libc::EAGAIN as i64 });
    }
    f
}

/// Faults after which the command may fail
pub fn harsh(r: &mut Rng) -> Fault {
    match r.below(9) {
        8 if r.chance(0.4) => Fault { class: 'a', nth: 0, kind: 'l', value: r.log(64, 200_000) as i64 },
        8 => Fault { class: 'a', nth: r.log(1, 3000) - 1, kind: 'e', value: libc::ENOMEM as i64 },
        0 | 1 => Fault { class: 'u', nth: 0, kind: 'f', value: r.log(1, 20_000) as i64 - 1 },
        2 => Fault { class: 'w', nth: r.log(1, 8) - 1, kind: r.pick(&['e', 'E']), value: r.pick(&ERRNOS) },
        3 => Fault { class: 'c', nth: r.log(1, 5) - 1, kind: r.pick(&['e', 'E']), value: r.pick(&ERRNOS) },
        4 => Fault { class: 'o', nth: r.log(1, 5) - 1, kind: r.pick(&['e', 'E']), value: r.pick(&ERRNOS) },
        5 => Fault { class: 'r', nth: r.log(1, 20) - 1, kind: r.pick(&['e', 'E']), value: r.pick(&[libc::EIO as i64, libc::ESTALE as i64, libc::EISDIR as i64]) },
        6 => Fault { class: 'p', nth: r.log(1, 12) - 1, kind: r.pick(&['e', 'E']), value: r.pick(&[libc::EPIPE as i64, libc::ENOSPC as i64, libc::EIO as i64, libc::EAGAIN as i64]) },
        _ => Fault { class: r.pick(&['d', 'f', 'n', 'x']), nth: r.below(3), kind: r.pick(&['e', 'E']), value: r.pick(&ERRNOS) },
    }
}

/// One or two images that the real library can watermark
pub fn real_world(r: &mut Rng) -> World {
    let n = 1;
    let nodes: Vec<Node> = (0..n)
        .map(|i| {
            let ext = r.pick(&["png", "png", "bmp", "tiff"]);
            Node { path: format!("in/photo{}.{}", i, ext), what: What::Image { seed: r.below(1000), w: 216, h: r.pick(&[216, 216, 224]), color: r.pick(&[0u8, 1, 1, 2, 4, 6, 7]), format: ext.into() } }
        })
        .collect();
    World { inputs: nodes.iter().map(|n| n.path.clone()).collect(), nodes, suffix: Some("w".into()), out: Some("out".into()), style: 0, cwd: "".into() }
}

/// Earlier outputs, longer and shorter than the new ones
pub fn occupied(r: &mut Rng, mut w: World) -> World {
    for i in 0..w.inputs.len() {
        let input = w.inputs[i].clone();
        if let (Some(name), true) = (output_name(&w, &input), r.chance(0.7)) {
            let p = join(&lexical(&join(&w.cwd, w.out.as_deref().unwrap_or(""))), &name);
            let linked = w.nodes.iter().any(|n| matches!(n.what, What::Link { .. }) && p.starts_with(&n.path));
            if !linked && !w.nodes.iter().any(|n| n.path == p) {
                let what = match (r.below(4), alike(&w, &input)) {
                    (0 | 1, Some(a)) => a,
                    (0 | 2, _) => What::Bytes { seed: 3, n: r.log(1, 200_000) as usize },
                    _ => What::Image { seed: 77, w: 90, h: 70, color: 4, format: "png".into() },
                };
                w.nodes.push(Node { path: p, what });
            }
        }
    }
    w
}
