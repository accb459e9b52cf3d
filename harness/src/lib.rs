//! Glue between the core and the crate under test: program registration and reporting.

use mc_core::explore::*;
use mc_core::{drivers, io, owner, spec, svm, wire, world};
use serde_json::json;
use std::io::Write;
use std::time::Instant;

/// Where evidence, replay files and findings live.
pub fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or("/verif".into())
}

pub fn setup() {
    svm::install();
    svm::register(wire::DLP, dlp::process_instruction);
    let w = world::world();
    svm::register(w.p, owner::honest);
    svm::register(w.q, owner::honest);
    svm::register(w.h, owner::hostile);
    svm::register(drivers::alias_program(), dlp::process_instruction);
    spec::honest(w.p);
    spec::honest(w.q);
}

pub fn tier() -> bool {
    match std::env::args().nth(3).or(std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => true,
        _ => false,
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Signatures of the recorded findings of a property.
pub fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("known: property={id} sig=\""))?;
            let (sig, what) = rest.split_once("\" ")?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

fn history(t: &Trace) -> String {
    t.steps.iter().map(|s| describe(&s.tx)).collect::<Vec<_>>().join(" ; ")
}

/// Replay the run's traces on the real bank (a separate program, as it has its own runtime hooks).
fn conform(run: &Run) -> Result<(u64, u64, Vec<String>), String> {
    let traces: Vec<_> = run.traces.iter().map(io::trace).collect();
    if traces.is_empty() || std::env::var("MC_NOCONF").is_ok() {
        return Ok((0, 0, vec![]));
    }
    let dir = format!("{}/.cache/run", root());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = format!("{dir}/{}.{}.traces.json", run.id, std::process::id());
    std::fs::write(&path, serde_json::to_vec(&json!({ "traces": traces })).unwrap()).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().unwrap().with_file_name("conform");
    let out = std::process::Command::new(exe).arg(&path).output().map_err(|e| format!("conform: {e}"));
    let _ = std::fs::remove_file(&path);
    let out = out?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let line = text
        .lines()
        .rev()
        .find_map(|l| l.strip_prefix("CONFORM "))
        .ok_or(format!("conform gave no result (status {}): {}", out.status, String::from_utf8_lossy(&out.stderr)))?;
    let v: serde_json::Value = serde_json::from_str(line).map_err(|e| e.to_string())?;
    let mism = v["mismatches"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    Ok((v["validated"].as_u64().unwrap(), v["steps"].as_u64().unwrap(), mism))
}

/// Write the evidence, print findings and return the exit code.
pub fn report(run: &Run, t0: Instant, assumptions: &[&str]) -> i32 {
    let evals = run.evals.of(run.id);
    let states: u64 = run.drivers.iter().map(|d| d.states).sum();
    let transitions: u64 = run.drivers.iter().map(|d| d.transitions).sum();
    let accepted: u64 = run.drivers.iter().map(|d| d.accepted).sum();
    let known = known(run.id);
    let (mut old, mut new): (Vec<&Found>, Vec<&Found>) = (vec![], vec![]);
    for f in &run.found {
        if known.iter().any(|k| k.0 == f.sig) {
            old.push(f);
        } else {
            new.push(f);
        }
    }
    new.sort_by_key(|f| f.trace.steps.len());
    let mut code = 0;
    let mut conf_note = String::new();
    let (mut validated, mut vsteps) = (0, 0);
    match conform(run) {
        Ok((v, s, mism)) => {
            validated = v;
            vsteps = s;
            for m in &mism {
                println!("MODEL-MISMATCH {}: {m}", run.id);
            }
            if !mism.is_empty() {
                conf_note = format!("{} mismatches: {}", mism.len(), mism[0]);
                code = 2;
            }
        }
        Err(e) => {
            println!("CONFORMANCE-ERROR {}: {e}", run.id);
            conf_note = e;
            code = 2;
        }
    }
    if evals == 0 {
        println!("VACUOUS {}: the property was never evaluated", run.id);
        code = 2;
    }
    for d in &run.drivers {
        if d.transitions == 0 && d.name != "mix two instances" {
            println!("VACUOUS {}: driver \"{}\" explored nothing", run.id, d.name);
            code = 2;
        }
    }
    let mut samples: Vec<String> = run.samples.clone();
    for t in run.traces.iter().take(6) {
        samples.push(history(t));
    }
    let kinds: Vec<_> =
        run.evals.0.iter().filter(|(k, _)| k.0 == run.id).map(|(k, n)| json!({"judged": k.1, "times": n})).collect();
    let ev = json!({
        "property": run.id,
        "tier": if run.thorough { "thorough" } else { "quick" },
        "seed": run.seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "accepted_transitions": accepted,
            "property_evaluations": evals,
            "traces_validated_against_impl": validated,
            "trace_steps_validated": vsteps,
            "conformance": if conf_note.is_empty() { "every replayed step had the same outcome and the same ledger on the real bank".to_string() } else { conf_note },
            "exhaustive": run.drivers.iter().all(|d| d.exhausted),
            "explorations": run.drivers.iter().map(|d| json!({
                "name": d.name, "space": d.note, "states": d.states, "transitions": d.transitions, "accepted": d.accepted,
                "depth": d.depth, "closed": d.exhausted, "secs": (d.secs * 100.0).round() / 100.0 })).collect::<Vec<_>>(),
            "evaluations_by_kind": kinds,
            "samples": samples,
        },
        "assumptions": assumptions,
        "violations": new.len(),
        "known_findings": old.len(),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let p = format!("{}/evidence/{}.json", root(), run.id);
    let mut f = std::fs::File::create(&p).expect("evidence file");
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();

    for (sig, what) in &known {
        if old.iter().any(|f| f.sig == *sig) {
            println!("KNOWN-FINDING: property={} {what}", run.id);
        }
    }
    if !new.is_empty() {
        let dir = format!("{}/out/{}", root(), run.id);
        let _ = std::fs::create_dir_all(&dir);
        let max = if run.verbose { 60 } else { 5 };
        for (i, f) in new.iter().enumerate() {
            if i >= max {
                break;
            }
            let path = format!("{dir}/{i}.json");
            let v = json!({"property": run.id, "driver": f.driver, "message": f.viol.msg, "tags": f.viol.tags, "sig": f.sig,
                "history": f.trace.steps.iter().map(|s| describe(&s.tx)).collect::<Vec<_>>(), "trace": io::trace(&f.trace)});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            println!("  {}: {} -- after: {}", f.driver, f.viol.msg, history(&f.trace));
            println!("VIOLATION property={} replay={path}", run.id);
        }
        if new.len() > max {
            println!("  ... and {} more", new.len() - max);
        }
        return 1;
    }
    println!(
        "{} {}: {} states, {} transitions ({} accepted), {} evaluations, {} traces replayed on the bank, {:.1}s{}",
        run.id,
        if code == 0 { "held" } else { "NO ANSWER" },
        states,
        transitions,
        accepted,
        evals,
        validated,
        t0.elapsed().as_secs_f64(),
        if old.is_empty() { "" } else { " (known findings)" }
    );
    code
}

/// Re-execute a replay file, printing every step and what the oracle says about it.
pub fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let t = io::un_trace(&v["trace"]);
    println!("property {} -- {}", v["property"], v["message"]);
    let mut led = t.genesis.clone();
    let mut bad = false;
    svm::set_trace(std::env::var("MC_LOGS").is_ok());
    for (i, s) in t.steps.iter().enumerate() {
        let out = svm::exec(&led, &s.tx, s.slot);
        println!("{i}: {} at slot {} -> {}", describe(&s.tx), s.slot, if out.ok { "ok".into() } else { out.err.clone() });
        for ix in &s.tx.ixs {
            for (j, m) in ix.metas.iter().enumerate() {
                let role = wire::parse(&ix.data).map(|(o, _)| o.roles().get(j).copied().unwrap_or("-")).unwrap_or("-");
                let (a, b) = (led.get(&m.key), out.ledger.get(&m.key));
                let change = if a != b { format!("  => {} {} {}", b.lamports, spec::short(&b.owner), io::hex(&b.data)) } else { String::new() };
                println!(
                    "     {role:10} {}{}{}: {} {} {}{change}",
                    spec::short(&m.key),
                    if m.signer { " S" } else { "" },
                    if m.writable { " W" } else { "" },
                    a.lamports,
                    spec::short(&a.owner),
                    io::hex(&a.data)
                );
            }
        }
        let mut ev = spec::Evals::default();
        for x in spec::judge_out(&out, s.slot, &mut ev) {
            println!("     !! {:?} {}", x.tags, x.msg);
            bad = true;
        }
        led = out.ledger;
    }
    bad as i32
}
