//! Performs the actions of the TLA+ specifications on the real library.
//!
//! `core-driver MODULE FILE MASK [--record]` reads one scenario per line. A scenario is either
//! `{"h": [steps], "x": state}` (compare results of every step and the state after the last one) or
//! `[steps]` (steps may carry `x`; compare every step). With `--record` nothing is compared and the
//! observed steps are printed. MASK is a comma separated list of the observations compared.

use crate::common::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

pub type Run = fn(&[Value]) -> Vec<Value>;

pub fn main(select: fn(&str) -> Run) {
    let args: Vec<String> = std::env::args().collect();
    let module = args[1].as_str();
    let mask: Vec<String> = args[3].split(',').map(str::to_owned).collect();
    let record = args.iter().any(|a| a == "--record");

    std::panic::set_hook(Box::new(|info| remember_panic(info.to_string())));
    start_watchdog();

    let file = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("scenario file"));
    let run = select(module);

    let (mut steps_total, mut scenarios) = (0usize, 0usize);
    for (n, line) in file.lines().enumerate() {
        let line = line.expect("readable scenario file");
        let scenario: Value = serde_json::from_str(&line).expect("scenario is JSON");
        let (steps, last_x) = match &scenario {
            Value::Array(steps) => (steps.clone(), None),
            other => (
                other["h"].as_array().expect("history").clone(),
                other.get("x").cloned(),
            ),
        };

        begin_scenario(n);
        let observed = run(&steps);
        end_scenario();

        scenarios += 1;
        steps_total += observed.len();
        if record {
            println!("{}", json!(observed));
            continue;
        }
        if let Some(mut diff) = compare(&steps, last_x.as_ref(), &observed, &mask) {
            diff["scenario"] = json!(n);
            println!("@M{diff}");
        }
    }
    println!("@D{}", json!({"scenarios": scenarios, "steps": steps_total}));
    std::io::stdout().flush().ok();
    // skip destructors of leaked handles and of threads that may still be blocked
    std::process::exit(0);
}

fn compare(steps: &[Value], last_x: Option<&Value>, observed: &[Value], mask: &[String]) -> Option<Value> {
    let report = |k: usize, what: &str, want: &Value, got: &Value| {
        Some(json!({"step": k, "action": steps.get(k), "what": what, "want": want, "got": got,
                    "panic": last_panic()}))
    };
    for (k, obs) in observed.iter().enumerate() {
        if let Some(msg) = obs.get("unexpected") {
            return report(k, "unexpected", &Value::Null, msg);
        }
        let Some(step) = steps.get(k) else {
            return report(k, "extra", &Value::Null, obs);
        };
        for (field, got) in obs.as_object().expect("observation") {
            if field == "x" || !mask.contains(field) {
                continue;
            }
            let want = step.get(field).unwrap_or(&Value::Null);
            if want != got {
                return report(k, field, want, got);
            }
        }
        let want_x = if k + 1 == steps.len() { step.get("x").or(last_x) } else { step.get("x") };
        if let (Some(want), Some(got)) = (want_x, obs.get("x")) {
            for (field, got) in got.as_object().expect("observed state") {
                if !mask.contains(field) {
                    continue;
                }
                let want = want.get(field).unwrap_or(&Value::Null);
                if want != got {
                    return report(k, field, want, got);
                }
            }
        }
    }
    let truncated = observed.last().is_some_and(|obs| obs.get("truncated").is_some());
    if observed.len() != steps.len() && !truncated {
        return report(observed.len(), "stopped", &json!(steps.len()), &json!(observed.len()));
    }
    None
}
