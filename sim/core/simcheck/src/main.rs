#![allow(invalid_runtime_symbol_definitions, dead_code)]
mod cli;
mod engine;
mod interpose;
mod medium;
mod net;
mod ops;
mod publish;
mod refmodel;
mod rng;
mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod s07;
mod s08;
mod s09;
mod s10;
mod s11;
mod s12;
mod s13;
mod s14;
mod s15;
mod s16;
mod s22;
mod s23;
mod sched;

use engine::Settings;

#[global_allocator]
static ALLOC: interpose::SimAlloc = interpose::SimAlloc;

macro_rules! with_scenario {
    ($id:expr, $s:ident => $body:expr) => {
        match $id {
            "C01" => { let $s = s01::Codec; $body }
            "C02" => { let $s = s02::Embedding; $body }
            "C03" => { let $s = s03::Quantizer; $body }
            "C04" => { let $s = s04::Tolerance; $body }
            "C05" => { let $s = s05::Forgery; $body }
            "C06" => { let $s = s06::Signatures; $body }
            "C07" => { let $s = s07::Records; $body }
            "C08" => { let $s = s08::Concurrent; $body }
            "C09" => { let $s = s09::History; $body }
            "C10" => { let $s = s10::Truthful; $body }
            "C11" => { let $s = s11::Harmless; $body }
            "C12" => { let $s = s12::Repeatable; $body }
            "C13" => { let $s = s13::Faithful; $body }
            "C14" => { let $s = s14::Durations; $body }
            "C15" => { let $s = s15::Keys; $body }
            "C16" => { let $s = s16::Fleet; $body }
            "C22" => { let $s = s22::Bounded; $body }
            "C23" => { let $s = s23::Secrets; $body }
            other => engine::harness_error(&format!("no scenario {}", other)),
        }
    };
}

/// Lines `known: property=<id> class=<class> <what fails>` of the known-findings file
fn known_findings(path: &str, id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut parts = rest.splitn(3, ' ');
            if let (Some(p), Some(c), Some(text)) = (parts.next(), parts.next(), parts.next()) {
                if p == format!("property={}", id) {
                    if let Some(c) = c.strip_prefix("class=") {
                        out.push((c.to_string(), text.to_string()));
                    }
                }
            }
        }
    }
    out
}

fn main() {
    engine::install_panic_hook();
    // Fixed addresses, so that nothing can depend on where things lie
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_ASLR").is_none() {
            if libc::personality(p as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) >= 0 {
                std::env::set_var("SIM_ASLR", "off");
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
            }
        }
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("SIM_ROOT").unwrap_or("/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let usage = "simcheck check ID | show ID INDEX | replay FILE | determinism ID RUNS";
    let command = args.get(1).map(String::as_str).unwrap_or("");
    let argument = args.get(2).cloned().unwrap_or_default();
    let code = match command {
        "check" | "determinism" | "show" => {
            let id = argument;
            let set = Settings {
                known: known_findings(&format!("{}/known-findings.txt", root), &id),
                evidence: Some(format!("{}/evidence/{}.json", root, id)),
                replay_dir: format!("{}/replays", root),
                seed,
                thorough,
                workers: std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
                runs: std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()),
                id: id.clone(),
            };
            if command == "show" {
                let index = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
                with_scenario!(id.as_str(), s => engine::show(&s, &set, index))
            } else if command == "check" {
                with_scenario!(id.as_str(), s => engine::check(&s, &set))
            } else {
                let runs = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(400);
                with_scenario!(id.as_str(), s => engine::determinism(&s, &set, runs))
            }
        }
        "replay" => {
            let file: serde_json::Value = std::fs::read(&argument)
                .ok()
                .and_then(|b| serde_json::from_slice(&b).ok())
                .unwrap_or_else(|| engine::harness_error(&format!("cannot read {}", argument)));
            let id = file["property"].as_str().unwrap_or("").to_string();
            with_scenario!(id.as_str(), s => engine::replay(&s, &file))
        }
        _ => engine::harness_error(usage),
    };
    std::process::exit(code);
}
