//! Driver of IntervalTree.tla. `map` of the first step says how bounds of the specification become
//! bounds of the code, `via` of an insertion which function performs it.

use crate::common::*;
use plotline_plugin_interval::{Bound, Interval, IntervalSearchTree};
use serde_json::{json, Value};
use std::{
    fmt::Debug,
    panic::{catch_unwind, AssertUnwindSafe},
};

#[derive(Debug, Clone, PartialEq)]
struct Span<B> {
    lo: B,
    hi: B,
    code: Vec<u32>,
}

impl<B: Bound> Interval for Span<B> {
    type Bound = B;
    fn lo(&self) -> B {
        self.lo
    }
    fn hi(&self) -> B {
        self.hi
    }
}

pub fn run(steps: &[Value]) -> Vec<Value> {
    let nb = num(&steps[0], "nb") as i64;
    match steps[0].get("map").and_then(Value::as_str).unwrap_or("plain") {
        "plain" => perform(steps, nb, |b| b),
        "negative" => perform(steps, nb, |b| (b - nb) * 1_000_000_007),
        "extreme" => perform(steps, nb, |b| match b {
            b if b <= 0 => i64::MIN,
            b if b > nb => i64::MAX,
            b => b - nb / 2,
        }),
        "edges" => perform(steps, nb, |b| if b <= nb / 2 { i64::MIN + b } else { i64::MAX - (nb + 1 - b) }),
        "char" => perform(steps, nb, |b| char::from_u32(0x40 + b as u32 * 3).expect("HARNESS: char")),
        "pair" => perform(steps, nb, |b| ((b / 2) as u8, b % 2 == 1)),
        other => panic!("HARNESS: map {other}"),
    }
}

fn perform<B: Bound + Debug>(steps: &[Value], nb: i64, map: impl Fn(i64) -> B) -> Vec<Value> {
    let span = |code: Vec<u32>| Span { lo: map(code[0] as i64), hi: map(code[1] as i64), code };
    let mut tree = IntervalSearchTree::default();
    let mut out = vec![];
    for (k, step) in steps.iter().enumerate() {
        let mut entry = step.clone();
        for field in ["x", "q", "i", "m"] {
            entry.as_object_mut().expect("HARNESS: step").remove(field);
        }
        let done = catch_unwind(AssertUnwindSafe(|| {
            let element = || span(nums(&step["e"]));
            let hits = |tree: &IntervalSearchTree<Span<B>>, lo: i64, hi: i64| {
                let mut found = vec![];
                let query = Span { lo: map(lo), hi: map(hi), code: vec![] };
                tree.for_each_intersection(&query, |span| found.push(span.code.clone()));
                found.sort();
                (json!(found), json!(tree.intersects(&query)))
            };
            let all = |tree: &IntervalSearchTree<Span<B>>| hits(tree, 0, nb + 1).0;
            match text(step, "a") {
                "Init" => {}
                "Insert" if step.get("via").is_some() => {
                    tree = std::mem::take(&mut tree).with_interval(element());
                }
                "Insert" => tree.insert(element()),
                "Delete" => tree.delete(&element()),
                "Query" => {
                    let (q, i) = hits(&tree, num(step, "lo") as i64, num(step, "hi") as i64);
                    entry["q"] = q;
                    entry["i"] = i;
                }
                "Look" => entry["m"] = all(&tree),
                other => panic!("HARNESS: action {other}"),
            }
            if step.get("x").is_some() || k + 1 == steps.len() {
                let (mut q, mut i) = (vec![], vec![]);
                for lo in 0..=nb + 1 {
                    if nb > 12 {
                        break; // recorded executions ask with Query
                    }
                    for hi in lo..=nb + 1 {
                        let (found, any) = hits(&tree, lo, hi);
                        q.push(found);
                        i.push(any);
                    }
                }
                entry["x"] = json!({"m": all(&tree), "q": q, "i": i});
            }
        }));
        if let Err(p) = done {
            entry["unexpected"] = json!(describe(&*p));
            out.push(entry);
            break;
        }
        out.push(entry);
    }
    out
}
