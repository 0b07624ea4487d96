//! Bounded exhaustive checking of rasp.
//!
//!   <bin> check <ID> <quick|thorough> <stats.json> <replay file to write>
//!   <bin> replay <replay file>
//!   <bin> list <ID> <tier>

use crate::bfs;
use crate::explore::*;
use std::fmt::Write as _;
use std::time::Instant;

pub type Searches = Vec<(String, Result<bfs::Bfs, Failure>)>;
type Scenarios = fn(&str, bool) -> Vec<Scenario>;
type Fixpoints = fn(&str, bool) -> Searches;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            x if (x as u32) < 32 => o.push(' '),
            x => o.push(x),
        }
    }
    o
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

fn report(id: &str, tier: &str, path: &str, f: &Failure) {
    let mut s = String::new();
    let _ = writeln!(s, "property: {}", id);
    let _ = writeln!(s, "tier: {}", tier);
    let _ = writeln!(s, "build: {}", profile());
    let _ = writeln!(s, "scenario: {}", f.scenario);
    let _ = writeln!(s, "depth: {}", f.depth);
    let c: Vec<String> = f.choices.iter().map(|x| x.to_string()).collect();
    let _ = writeln!(s, "choices: {}", c.join(","));
    let _ = writeln!(s, "message: {}", f.message.replace('\n', " "));
    let _ = writeln!(s, "history:");
    for l in &f.log {
        let _ = writeln!(s, "  {}", l.replace('\n', " "));
    }
    if let Err(e) = std::fs::write(path, &s) {
        harness_error(&format!("cannot write {}: {}", path, e));
    }
    print!("{}", s);
    println!("VIOLATION property={} replay={}", id, path);
}

pub fn main(scenarios: Scenarios, fixpoints: Fixpoints) {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 6 => check(scenarios, fixpoints, &a[2], &a[3], &a[4], &a[5]),
        Some("replay") if a.len() == 3 => replay_file(scenarios, fixpoints, &a[2]),
        Some("list") if a.len() == 4 => {
            for s in scenarios(&a[2], a[3] == "thorough") {
                println!("{} (depth {})", s.name, s.depth);
            }
        }
        _ => harness_error("usage: check ID TIER STATS REPLAY | replay FILE | list ID TIER"),
    }
}

fn check(scenarios: Scenarios, fixpoints: Fixpoints, id: &str, tier: &str, stats_path: &str, replay_path: &str) {
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let mut parts: Vec<String> = vec![];
    let mut sample: Vec<String> = vec![];
    let mut found: Option<Failure> = None;
    let hang = |f: Failure| {
        report(id, tier, replay_path, &f);
        std::process::exit(1);
    };
    let all = scenarios(id, thorough);
    if all.is_empty() {
        harness_error("no scenarios for this property");
    }
    for sc in all {
        let t = Instant::now();
        let mut st = Stats::default();
        let r = explore(&sc, &mut st, &hang);
        if verbose {
            eprintln!(
                "{:60} depth {:2} executions {:>10} states {:>10} ops {:>12} outcomes {:>7} {:.2}s slowest {:.3}s",
                sc.name, sc.depth, st.executions, st.states, st.ops, st.outcomes.len(), t.elapsed().as_secs_f64(), st.slowest
            );
        }
        parts.push(format!(
            "{{\"scenario\":\"{}\",\"kind\":\"stateless\",\"depth\":{},\"longest\":{},\"executions\":{},\"states\":{},\"operations\":{},\"distinct_outcomes\":{},\"outcomes_capped\":{},\"complete\":{},\"wall_s\":{:.3}}}",
            esc(&sc.name), sc.depth, st.max_len, st.executions, st.states, st.ops, st.outcomes.len(), st.outcomes_capped, r.is_ok(), t.elapsed().as_secs_f64()
        ));
        if let Err(f) = r {
            found = Some(f);
            break;
        }
        if sample.len() < 6 {
            // One history of this scenario written out (the explorer's second one, say).
            let (_, log) = replay(&sc, sc.depth, &[]);
            if !log.is_empty() {
                sample.push(format!("{}: {}", sc.name, log.into_iter().take(12).collect::<Vec<_>>().join("; ")));
            }
        }
    }
    if found.is_none() {
        for (name, r) in fixpoints(id, thorough) {
            match r {
                Ok(b) => {
                    if verbose {
                        eprintln!("{:60} states {} transitions {} depth {} complete {}", name, b.states, b.transitions, b.depth, b.complete);
                    }
                    parts.push(format!(
                        "{{\"scenario\":\"{}\",\"kind\":\"fixpoint\",\"depth\":{},\"states\":{},\"transitions\":{},\"complete\":{}}}",
                        esc(&name), b.depth, b.states, b.transitions, b.complete
                    ))
                }
                Err(f) => {
                    found = Some(f);
                    break;
                }
            }
        }
    }
    let s = format!(
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"build\":\"{}\",\"hook\":{},\"violations\":{},\"wall_s\":{:.3},\"samples\":[{}],\"parts\":[\n{}\n]}}\n",
        id,
        tier,
        profile(),
        cfg!(rasp_verif),
        found.is_some() as u32,
        t0.elapsed().as_secs_f64(),
        sample.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        parts.join(",\n")
    );
    if let Err(e) = std::fs::write(stats_path, s) {
        harness_error(&format!("cannot write {}: {}", stats_path, e));
    }
    if let Some(f) = found {
        report(id, tier, replay_path, &f);
        std::process::exit(1);
    }
}

fn replay_file(scenarios: Scenarios, fixpoints: Fixpoints, path: &str) {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => harness_error(&format!("{}: {}", path, e)),
    };
    let get = |k: &str| -> String {
        s.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).unwrap_or("").to_string()
    };
    let id = get("property");
    let name = get("scenario");
    let thorough = get("tier") == "thorough";
    if name.starts_with("fixpoint/") {
        for (n, r) in fixpoints(&id, thorough) {
            if n == name {
                match r {
                    Err(f) => report(&id, &get("tier"), "/dev/null", &f),
                    Ok(_) => println!("not reproduced"),
                }
            }
        }
        return;
    }
    let choices: Vec<u32> = get("choices").split(',').filter_map(|x| x.parse().ok()).collect();
    for sc in scenarios(&id, thorough) {
        if sc.name == name {
            let (r, log) = replay(&sc, get("depth").parse().unwrap_or(sc.depth), &choices);
            for l in log {
                println!("  {}", l);
            }
            match r {
                Ok(()) => println!("not reproduced"),
                Err(m) => {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", id, path);
                    std::process::exit(1);
                }
            }
            return;
        }
    }
    harness_error("no such scenario");
}
