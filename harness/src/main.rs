#[macro_use]
mod pbt;
mod airdrop_world;
mod chain;
mod core_props;
mod core_world;
mod periphery_world;
mod pure;
mod said;
mod sdk;
mod wide;

use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::time::Duration;

use pbt::*;
use serde_json::{json, Value};

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(core_props::props());
    v.extend(airdrop_world::props());
    v.extend(periphery_world::props());
    v.extend(pure::props());
    v.extend(sdk::props());
    v
}

/// signatures of the listed findings of one property
fn listed(path: &str, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let head = format!("known: property={id} signature=\"");
    text.lines().filter_map(|l| l.strip_prefix(&head)).filter_map(|l| l.split_once('"')).map(|(a, b)| (a.to_string(), b.trim().to_string())).collect()
}

fn arg(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    chain::install_panic_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("replay") => replay(&args),
        Some("list") => { for p in props() { eprintln!("{} quick={} thorough={}", p.id, p.quick, p.thorough); } 0 }
        _ => { eprintln!("usage: ibcx-pbt check ID --tier quick|thorough [--seed N] [--evidence F] [--replays DIR] [--known F] [--report F] | replay FILE"); 2 }
    };
    std::process::exit(code);
}

fn check(args: &[String]) -> i32 {
    let id = args[2].clone();
    let all = props();
    let p = match all.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {id}"); return 2; } };
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases = arg(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let deadline = arg(args, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 2400 } else { 240 });
    let threads = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let known = listed(&arg(args, "--known").unwrap_or_default(), &id);
    set_listed(known.iter().map(|k| k.0.clone()).collect::<BTreeSet<_>>());
    let dir = arg(args, "--replays").unwrap_or_else(|| ".".into());
    let write_evidence = |cov: Value, wall: f64, violations: &Vec<Value>| -> bool {
        let ev = match arg(args, "--evidence") { Some(e) => e, None => return true };
        let doc = json!({ "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": p.assumptions, "wall_s": wall, "violations": violations.len(), "violation_details": violations });
        std::fs::write(&ev, serde_json::to_string_pretty(&doc).unwrap() + "\n").map_err(|e| eprintln!("cannot write {ev}: {e}")).is_ok()
    };
    let on_stuck = |i: u64| {
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{dir}/{id}-{seed}-{i}.json");
        let msg = "the case did not terminate within 150 s (cases take milliseconds)";
        std::fs::write(&path, serde_json::to_string_pretty(&json!({ "property": id, "seed": seed, "case": i, "thorough": thorough, "kind": "does not terminate", "message": msg })).unwrap()).ok();
        let out = format!("does not terminate: case {i}: {msg}\nVIOLATION property={id} replay={path}\n");
        write_evidence(json!({ "evaluations": i + 1, "distinct_nontrivial": 0, "rule": p.rule, "samples": [] }), 150.0, &vec![json!({ "kind": "does not terminate", "replay": path })]);
        match arg(args, "--report") { Some(r) => { std::fs::write(r, out).ok(); } None => eprint!("{out}") }
        std::process::exit(1);
    };
    let o = run_prop(p, seed, thorough, cases, threads, Duration::from_secs(deadline), Duration::from_secs(40), Duration::from_secs(150), &on_stuck);

    let mut out = String::new();
    let mut code = 0;
    let mut violations: Vec<Value> = vec![];
    for (sig, what) in &known {
        let _ = match o.known.get(sig) {
            Some(ex) => writeln!(out, "KNOWN-FINDING: property={id} {sig} - {what} (seen in {} of {} cases, e.g. {})", o.known_counts[sig], o.evaluations, one_line(ex)),
            None => writeln!(out, "KNOWN-FINDING: property={id} {sig} - {what} (not met by this run)"),
        };
    }
    if let Some(f) = &o.failure {
        code = 1;
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{dir}/{id}-{seed}-{}.json", f.index);
        let doc = json!({ "property": id, "seed": seed, "case": f.index, "thorough": thorough, "kind": f.fail.kind, "message": f.fail.msg, "choices": f.choices, "trace": f.trace });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).ok();
        let _ = writeln!(out, "{}: {}", f.fail.kind, f.fail.msg);
        for l in &f.trace { let _ = writeln!(out, "    {l}"); }
        let _ = writeln!(out, "VIOLATION property={id} replay={path}");
        violations.push(json!({ "kind": f.fail.kind, "message": f.fail.msg, "replay": path }));
    }
    let _ = writeln!(
        out, "{id}: {} cases ({} distinct, {} distinct non-trivial), {} checks, {:.1}s{}{}", o.evaluations, o.distinct, o.distinct_nontrivial, o.checks, o.wall,
        if o.truncated { ", stopped at the time limit" } else { "" }, if code == 0 { ", no violation" } else { "" }
    );
    let cov = json!({
        "evaluations": o.evaluations, "distinct_cases": o.distinct, "distinct_nontrivial": o.distinct_nontrivial, "rule": format!("a case is a sequence of random choices derived from the seed and the case number, distinct by its choices; non-trivial: {}", p.rule),
        "oracle_checks": o.checks, "op_classes": o.classes, "cases_with_class": o.case_classes, "known_findings_met": o.known_counts,
        "samples": o.samples.iter().map(|s| s.join("\n")).collect::<Vec<_>>(), "stopped_at_time_limit": o.truncated,
    });
    if !write_evidence(cov, o.wall, &violations) { return 2; }
    match arg(args, "--report") { Some(r) => { std::fs::write(r, out).ok(); } None => eprint!("{out}") }
    code
}

fn one_line(s: &str) -> String { s.replace('\n', " ").chars().take(300).collect() }

fn replay(args: &[String]) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file is JSON");
    let id = v["property"].as_str().unwrap().to_string();
    let choices: Option<Vec<u64>> = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect());
    let all = props();
    let p = all.iter().find(|p| p.id == id).expect("known property");
    let known = listed(&arg(args, "--known").unwrap_or_default(), &id);
    set_listed(known.iter().map(|k| k.0.clone()).collect::<BTreeSet<_>>());
    let (case, thorough) = (v["case"].as_u64().unwrap_or(0), v["thorough"].as_bool().unwrap_or(false));
    let (r, cx) = match choices {
        Some(c) => run_choices(p, c, true, case, thorough),
        None => run_seeded(p, v["seed"].as_u64().unwrap_or(1), case, true, thorough),
    };
    for l in &cx.trace { eprintln!("    {l}"); }
    match r {
        Ok(()) => { eprintln!("{id}: the replayed case holds"); 0 }
        Err(f) => { eprintln!("{}: {}", f.kind, f.msg); eprintln!("VIOLATION property={id} replay={}", args[2]); 1 }
    }
}
