//! mc <property> [--replay FILE] [--family SUBSTR] [-v]
//!
//! Parent process: starts the worker, turns an abnormal death or a hang of the code under test
//! into a violation, writes the replay file and prints the verdict.
//! Worker process (--worker): explores, writes the evidence file.

mod bytesfam;
mod checks;
mod conv;
mod effects;
mod engine;
mod gen;
mod hist;
mod model;
mod wire;

#[global_allocator]
static GLOBAL: hist::Alloc = hist::Alloc;

use engine::*;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::Instant;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".to_string())
}

struct Args {
    id: String,
    worker: bool,
    trace: bool,
    replay: Option<String>,
    family: Option<String>,
    verbose: bool,
}

fn parse_args() -> Args {
    let mut a = Args { id: String::new(), worker: false, trace: false, replay: None, family: None, verbose: false };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--worker" => a.worker = true,
            "--trace" => a.trace = true,
            "--replay" => a.replay = it.next(),
            "--family" => a.family = it.next(),
            "-v" => a.verbose = true,
            "--ops" => {
                hist::child(&it.collect::<Vec<_>>());
                std::process::exit(0);
            }
            _ => a.id = x,
        }
    }
    a
}

fn slot_path(id: &str) -> String {
    format!("{}/mc/target/slots-{}-{}", verif(), id, std::process::id())
}

fn main() {
    let a = parse_args();
    let th = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if a.worker {
        worker(&a, th);
    } else {
        supervise(&a, th);
    }
}

fn write_replay(id: &str, fam: &str, index: u64, choices: &[u32], detail: &str) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let text = format!("property {}\ntier {}\nfamily {}\nindex {}\nchoices {}\ndetail {}\n", id, tier, fam, index, ch.join(","), detail);
    let _ = std::fs::write(&path, text);
    path
}

fn supervise(a: &Args, th: bool) {
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let mut extra: Vec<String> = Vec::new();
    if let Some(f) = &a.family {
        extra.extend(["--family".to_string(), f.clone()]);
    }
    if let Some(f) = &a.replay {
        extra.extend(["--replay".to_string(), f.clone()]);
    }
    if a.verbose {
        extra.push("-v".into());
    }
    let run = |trace: bool, slots: &str| {
        let mut c = Command::new(&exe);
        c.arg(&a.id).arg("--worker").args(&extra).stdin(Stdio::null());
        if trace {
            c.arg("--trace").env("MC_SLOTS", slots);
        }
        c.status()
    };
    let st = match run(false, "") {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start the worker: {}", e);
            std::process::exit(2);
        }
    };
    match st.code() {
        Some(c) => std::process::exit(c),
        None => (),
    }
    use std::os::unix::process::ExitStatusExt;
    let sig = st.signal().unwrap_or(0);
    if let Some(r) = &a.replay {
        println!("the replayed case ends the process with signal {}", sig);
        println!("VIOLATION property={} replay={}", a.id, r);
        std::process::exit(1);
    }
    eprintln!("the worker died of signal {}; running again with tracing", sig);
    let slots = slot_path(&a.id);
    let _ = std::fs::write(&slots, vec![0u8; 4096 * 16]);
    let st2 = run(true, &slots);
    let data = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    match st2.map(|s| s.signal()) {
        Ok(Some(s2)) => {
            let mut cases = Vec::new();
            for t in 0..16 {
                let o = t * 4096;
                if data.len() < o + 4096 {
                    break;
                }
                let f = u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
                if f == 0 {
                    continue;
                }
                let i = u64::from_le_bytes(data[o + 8..o + 16].try_into().unwrap());
                let n = u32::from_le_bytes(data[o + 16..o + 20].try_into().unwrap()).min(900) as usize;
                let ch: Vec<u32> = (0..n).map(|k| u32::from_le_bytes(data[o + 20 + 4 * k..o + 24 + 4 * k].try_into().unwrap())).collect();
                cases.push((f as usize - 1, i, ch));
            }
            let fams = checks::families(&a.id, th).map(|c| c.families).unwrap_or_default();
            // Find the case that kills the process by itself.
            for (f, i, ch) in &cases {
                let name = fams.get(*f).map(|f| f.name.clone()).unwrap_or_default();
                let p = write_replay(&a.id, &name, *i, ch, &format!("process died of signal {}", s2));
                let mut c = Command::new(&exe);
                let s = c.arg(&a.id).arg("--worker").arg("--replay").arg(&p).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status();
                if let Ok(s) = s {
                    if s.signal().is_some() || s.code() == Some(1) {
                        evidence_violation(&a.id, th, t0.elapsed().as_secs_f64(), &format!("process died of signal {} in family {} index {}", s2, name, i));
                        println!("process died of signal {} (stack overflow or abort) in family '{}' index {}", s2, name, i);
                        println!("VIOLATION property={} replay={}", a.id, p);
                        std::process::exit(1);
                    }
                }
            }
            eprintln!("worker died of signal {} twice, but no single case reproduces it", s2);
            std::process::exit(2);
        }
        Ok(None) => {
            eprintln!("the worker's death (signal {}) did not recur: not judged", sig);
            std::process::exit(2);
        }
        Err(e) => {
            eprintln!("cannot start the worker: {}", e);
            std::process::exit(2);
        }
    }
}

fn evidence_violation(id: &str, th: bool, wall: f64, what: &str) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"explanation\":{}}},\"wall_s\":{:.2},\"violations\":1}}\n",
        jstr(id), jstr(if th { "thorough" } else { "quick" }), seed, jstr(what), wall
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif(), id), j);
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines: "known: property=<id> family=<name> index=<n> <what fails>"
    let mut out = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif())) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} key=", id)) {
                if let Some((k, w)) = r.split_once(' ') {
                    out.push((k.to_string(), w.to_string()));
                }
            }
        }
    }
    out
}

fn worker(a: &Args, th: bool) {
    let t0 = Instant::now();
    let check = match checks::families(&a.id, th) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", a.id);
            std::process::exit(2);
        }
    };
    let only = a.replay.as_ref().map(|f| {
        let t = std::fs::read_to_string(f).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{} ", k)).map(|s| s.to_string())).unwrap_or_default();
        let ch: Vec<u32> = get("choices").split(',').filter_map(|x| x.parse().ok()).collect();
        (get("family"), get("index").parse::<u64>().unwrap_or(0), ch)
    });
    let id = a.id.clone();
    let on_hang = Arc::new(move |fam: &str, i: u64| {
        let p = write_replay(&id, fam, i, &[], "did not terminate");
        evidence_violation(&id, th, t0.elapsed().as_secs_f64(), &format!("no termination in family {} index {}", fam, i));
        println!("a call did not terminate: family '{}' index {}", fam, i);
        println!("VIOLATION property={} replay={}", id, p);
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    });
    let opts = Opts {
        thorough: th,
        slot_file: if a.trace { std::env::var("MC_SLOTS").ok() } else { None },
        hang_limit: if th { 150 } else { 60 },
        only: only.clone(),
        on_hang,
        family_filter: a.family.clone(),
        verbose: a.verbose,
    };
    let rep = run(check.families, &opts);
    if only.is_some() {
        match &rep.violation {
            Some(v) => {
                println!("{}", v.detail);
                println!("VIOLATION property={} replay={}", a.id, a.replay.clone().unwrap());
                std::process::exit(1);
            }
            None => {
                println!("replay: the property holds on this case");
                std::process::exit(0);
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut fam = String::from("[");
    for (k, (n, bd, c, s)) in rep.families.iter().enumerate() {
        if k > 0 {
            fam.push(',');
        }
        fam.push_str(&format!("{{\"family\":{},\"bound\":{},\"indices\":{},\"seconds\":{:.2}}}", jstr(n), jstr(bd), c, s));
    }
    fam.push(']');
    let outs: Vec<String> = rep.outcomes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let samples: Vec<String> = rep.samples.iter().map(|s| jstr(s)).collect();
    let assum: Vec<String> = check.assumptions.iter().map(|s| jstr(s)).collect();
    let tierstr = if th { "thorough" } else { "quick" };
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":[{}],\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"outside_domain\":{},\"outcomes\":{{{}}},\"families\":{},\"exhaustive\":{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(&a.id), jstr(tierstr), seed, rep.states, rep.transitions, rep.traces, samples.join(","), rep.evals, rep.distinct, jstr(check.rule), rep.skipped, outs.join(","), fam, rep.violation.is_none() && a.family.is_none(), assum.join(","), wall, rep.violation.is_some() as u32
    );
    if a.family.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", verif(), a.id), j) {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(2);
        }
    }
    for (_, w) in known_findings(&a.id) {
        println!("KNOWN-FINDING: property={} {}", a.id, w);
    }
    match rep.violation {
        Some(v) => {
            let p = write_replay(&a.id, &v.family, v.index, &v.choices, &v.detail);
            println!("family '{}' index {} choices {:?}: {}", v.family, v.index, v.choices, v.detail);
            println!("VIOLATION property={} replay={}", a.id, p);
            std::process::exit(1);
        }
        None => {
            println!(
                "{} {}: held; {} executions, {} traces compared, {} abstract states, {} transitions, {:.1}s",
                a.id, tierstr, rep.evals, rep.traces, rep.states, rep.transitions, wall
            );
        }
    }
}
