//! Driver of Atomic.tla: threads use one schema at the same time and record what they see.

use crate::common::*;
use plotline::{
    graph::{Graph, Source},
    prelude::*,
    schema::transaction::{Context, Transaction},
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    panic::{catch_unwind, panic_any, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Mutex,
    },
    time::{Duration, Instant},
};

/// A schema without resources and triggers; only its graph is touched by several threads.
struct Shared(Schema<Node>);
unsafe impl Sync for Shared {}

struct Setup {
    groups: usize,
    width: usize,
    updates: u64,
    seed: u64,
}

/// The node every update increments.
const COUNTER: u32 = 0;
const TORN: i64 = -1;
const EFFECTS: [&str; 3] = ["save", "del", "keep"];

impl Setup {
    fn ids(&self, group: usize) -> impl Iterator<Item = u32> {
        // the ids of the groups are interleaved
        let (groups, width) = (self.groups, self.width);
        (0..width).map(move |k| (k * groups + group + 1) as u32)
    }

    /// What one look at everything says: the number of updates and what each group holds.
    fn summary(&self, mut get: impl FnMut(u32) -> Option<u32>) -> (u64, Vec<i64>) {
        let counter = get(COUNTER).unwrap_or(0) as u64;
        let groups = (0..self.groups)
            .map(|group| {
                let mut values = self.ids(group).map(|id| get(id).unwrap_or(0) as i64);
                let first = values.next().unwrap_or(0);
                if values.all(|v| v == first) { first } else { TORN }
            })
            .collect();
        (counter, groups)
    }

    fn of_graph(&self, graph: &Graph<Node>) -> (u64, Vec<i64>) {
        let all: BTreeMap<u32, u32> = graph.into_iter().map(|node| (node.id, node.val)).collect();
        self.summary(|id| all.get(&id).copied())
    }

    fn of_context(&self, ctx: &Context<'_, Node>) -> (u64, Vec<i64>) {
        self.summary(|id| ctx.get(&id).map(|node| node.val))
    }
}

#[derive(Default)]
struct Log {
    /// (at, seen) -> the tightest bounds
    observed: BTreeMap<(u64, Vec<i64>), (u64, u64)>,
    events: Vec<Value>,
}

impl Log {
    fn observe(&mut self, (at, seen): (u64, Vec<i64>), lo: u64, hi: u64) {
        let bounds = self.observed.entry((at, seen)).or_insert((lo, hi));
        bounds.0 = bounds.0.max(lo);
        bounds.1 = bounds.1.min(hi);
    }
}

pub fn run(steps: &[Value]) -> Vec<Value> {
    let cfg = &steps[0];
    let setup = Setup {
        groups: num(cfg, "groups"),
        width: num(cfg, "width"),
        updates: num(cfg, "updates") as u64,
        seed: num(cfg, "seed") as u64,
    };
    let shared = Shared(Schema::from(Graph::<Node>::default()));
    let begun = AtomicU64::new(0);
    let returned = AtomicU64::new(0);
    let logs: Mutex<Vec<Log>> = Mutex::default();
    let failure: Mutex<Option<String>> = Mutex::default();
    let deadline = Instant::now() + Duration::from_millis(num(cfg, "millis") as u64);
    let over = || returned.load(SeqCst) >= setup.updates || Instant::now() > deadline;

    // a transaction nobody uses is in nobody's way
    let idle = shared.0.transaction();
    let (readers, writers) = (num(cfg, "readers"), num(cfg, "writers"));
    std::thread::scope(|scope| {
        for k in 0..readers + writers {
            let (shared, setup, begun, returned, logs, failure, over) =
                (&shared, &setup, &begun, &returned, &logs, &failure, &over);
            scope.spawn(move || {
                let rng = Rng::new(setup.seed * 1000 + k as u64);
                let log = RefCell::new(Log::default());
                let done = catch_unwind(AssertUnwindSafe(|| {
                    while !over() {
                        if k < readers {
                            read(setup, shared, begun, returned, &rng, &log);
                        } else {
                            write(setup, shared, begun, returned, &rng, &log);
                        }
                    }
                }));
                if let Err(p) = done {
                    *failure.lock().expect("HARNESS: lock") = Some(describe(&*p));
                }
                logs.lock().expect("HARNESS: lock").push(log.into_inner());
            });
        }
    });
    drop(idle);

    let mut all = Vec::new();
    for log in logs.into_inner().expect("HARNESS: lock") {
        all.extend(log.events);
        for ((at, seen), (lo, hi)) in log.observed {
            all.push(json!({"a": "Observe", "at": at, "s": seen, "lo": lo, "hi": hi}));
        }
    }
    // what follows from the same number of updates is ordered: observations, attempts, the next update
    all.sort_by_key(|e| (num(e, "at"), text(e, "a") == "Update"));
    let mut out = vec![json!({"a": "Init", "cfg": cfg})];
    out.append(&mut all);
    if let Some(msg) = failure.into_inner().expect("HARNESS: lock") {
        out.push(json!({"a": "Observe", "unexpected": msg}));
    }
    out
}

fn read(setup: &Setup, shared: &Shared, begun: &AtomicU64, returned: &AtomicU64, rng: &Rng, log: &RefCell<Log>) {
    let lo = returned.load(SeqCst);
    let seen = match rng.below(8) {
        0 => shared
            .0
            .transaction()
            .with(|ctx| Ok(setup.of_context(&ctx)))
            .unwrap_or_else(|err| panic!("a transaction that reads failed: {err}")),
        1 => setup.of_graph(&shared.0.write()),
        2 => {
            let guard = shared.0.read();
            setup.summary(|id| Source::get(&*guard, &id).map(|node: Node| node.val))
        }
        _ => setup.of_graph(&shared.0.read()),
    };
    let hi = begun.load(SeqCst);
    log.borrow_mut().observe(seen, lo, hi);
}

fn write(setup: &Setup, shared: &Shared, begun: &AtomicU64, returned: &AtomicU64, rng: &Rng, log: &RefCell<Log>) {
    let effects: Vec<&str> = (0..setup.groups).map(|_| EFFECTS[rng.weighted(&[(5, 0), (2, 1), (2, 2)]).to_owned()]).collect();
    let style = *rng.weighted(&[(5, "flat"), (3, "nested"), (2, "error"), (1, "panic"), (2, "direct")]);
    let lo = returned.load(SeqCst);
    let mut entry = json!({"a": "Attempt", "eff": effects, "lo": lo, "style": style});
    let mut at = 0;

    if style == "direct" {
        let mut guard = shared.0.write();
        let seen = setup.of_graph(&guard);
        at = seen.0;
        entry["s"] = json!(seen.1);
        begun.fetch_max(at + 1, SeqCst);
        guard.insert(Node::new(COUNTER, at as u32 + 1));
        for (group, effect) in effects.iter().enumerate() {
            for id in setup.ids(group) {
                match *effect {
                    "save" => drop(guard.insert(Node::new(id, at as u32 + 1))),
                    "del" => drop(guard.remove(&id)),
                    _ => {}
                }
            }
        }
        drop(guard);
        entry["a"] = json!("Update");
    } else {
        let record = |ctx: &Context<'_, Node>, groups: &mut dyn Iterator<Item = usize>, v: u32| {
            for group in groups {
                for id in setup.ids(group) {
                    match effects[group] {
                        "save" => ctx.save(Node::new(id, v)),
                        "del" => ctx.delete(id),
                        _ => {}
                    }
                }
            }
        };
        let result = catch_unwind(AssertUnwindSafe(|| {
            shared.0.transaction().with(|ctx| {
                let seen = setup.of_context(&ctx);
                at = seen.0;
                entry["s"] = json!(seen.1);
                let v = at as u32 + 1;
                let half = setup.groups / 2;
                if style == "nested" {
                    ctx.transaction().with(|inner| {
                        record(&inner, &mut (0..half), v);
                        Ok(())
                    })?;
                    record(&ctx, &mut (half..setup.groups), v);
                } else {
                    record(&ctx, &mut (0..setup.groups), v);
                }
                ctx.save(Node::new(COUNTER, v));
                match style {
                    "error" => return Err(plotline::schema::Error::custom("wanted")),
                    "panic" => panic_any(Planned::One),
                    _ => {}
                }
                begun.fetch_max(at + 1, SeqCst);
                Ok(())
            })
        }));
        match (style, result) {
            ("error", Ok(Err(_))) | ("panic", Err(_)) => {}
            (_, Ok(Ok(()))) if style != "error" => entry["a"] = json!("Update"),
            (_, Ok(result)) => panic!("a transaction ended with {result:?}"),
            (_, Err(p)) => panic!("a transaction panicked: {}", describe(&*p)),
        }
    }
    if text(&entry, "a") == "Update" {
        returned.fetch_max(at + 1, SeqCst);
    }
    entry["at"] = json!(at);
    entry["hi"] = json!(begun.load(SeqCst));
    log.borrow_mut().events.push(entry);
}
