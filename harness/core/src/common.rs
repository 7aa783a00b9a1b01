use plotline::{graph::Graph, prelude::*, property::Property};
use serde_json::{json, Value};
use std::{
    any::Any,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::Duration,
};

/// The node type every scenario uses. `edges` is derived from `val` unless a scenario sets it, so
/// that a lookup that returned a mixture of two nodes would show.
#[derive(Debug, Clone, PartialEq)]
pub struct Node {
    pub id: u32,
    pub val: u32,
    pub edges: Vec<u32>,
}

impl Node {
    pub fn new(id: u32, val: u32) -> Self {
        Node { id, val, edges: vec![val, id] }
    }
    pub fn coherent(&self) -> bool {
        self.edges == [self.val, self.id]
    }
}

impl Identify for Node {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.id
    }
}

pub struct Edge(pub u32);
impl Identify for Edge {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.0
    }
}
impl Property<Node> for Edge {
    fn all(source: &Node) -> Vec<Self> {
        source.edges.iter().map(|id| Edge(*id)).collect()
    }
}

pub fn num(v: &Value, field: &str) -> usize {
    v[field].as_u64().unwrap_or_else(|| panic!("HARNESS: {field} in {v}")) as usize
}
pub fn text<'a>(v: &'a Value, field: &str) -> &'a str {
    v[field].as_str().unwrap_or_else(|| panic!("HARNESS: {field} in {v}"))
}
pub fn flag(v: &Value, field: &str) -> bool {
    v[field].as_bool().unwrap_or_else(|| panic!("HARNESS: {field} in {v}"))
}
pub fn nums(v: &Value) -> Vec<u32> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().expect("HARNESS: number") as u32).collect())
        .unwrap_or_default()
}

/// The graph as ids 1..=n -> value (0 if absent), read through every read API there is; a JSON
/// string describing the contradiction if they disagree.
pub fn graph_value(graph: &Graph<Node>, n: u32) -> Value {
    use plotline::graph::Source;
    let mut out = Vec::new();
    for id in 0..=n + 1 {
        let got = graph.get(&id);
        let proxy = graph.node(id);
        let resolved = proxy.try_deref().cloned();
        let iterated: Vec<&Node> = graph.into_iter().filter(|node| node.id == id).collect();
        if got != resolved
            || got.is_some() != graph.contains(&id)
            || got.is_some() == proxy.is_virtual()
            || iterated.len() != got.is_some() as usize
            || iterated.first().copied() != got.as_ref()
        {
            return json!(format!("graph disagrees with itself about {id}"));
        }
        match got {
            Some(node) if node.id != id || !node.coherent() => {
                return json!(format!("graph holds {node:?} under {id}"))
            }
            Some(_) if id == 0 || id > n => return json!(format!("graph holds unknown id {id}")),
            _ => {}
        }
        if id >= 1 && id <= n {
            out.push(got.map(|node| node.val).unwrap_or(0));
        }
    }
    let order: Vec<u32> = graph.into_iter().map(|node| node.id).collect();
    if !order.windows(2).all(|w| w[0] < w[1]) {
        return json!(format!("graph iterates as {order:?}"));
    }
    json!(out)
}

/// The view of a context, read through every read API there is.
pub fn ctx_value(ctx: &plotline::schema::transaction::Context<'_, Node>, n: u32) -> Value {
    use plotline::graph::Source;
    let mut out = Vec::new();
    for id in 0..=n + 1 {
        let got = ctx.get(&id);
        let proxy = ctx.node(id);
        let resolved = proxy.try_deref().cloned();
        if got != resolved || got.is_some() != ctx.contains(&id) || got.is_some() == proxy.is_virtual() {
            return json!(format!(
                "context disagrees with itself about {id}: get {got:?}, deref {resolved:?}, contains {}, virtual {}",
                ctx.contains(&id),
                proxy.is_virtual()
            ));
        }
        match got {
            Some(node) if node.id != id || !node.coherent() => {
                return json!(format!("context yields {node:?} for {id}"))
            }
            Some(_) if id == 0 || id > n => return json!(format!("context yields unknown id {id}")),
            _ => {}
        }
        if id >= 1 && id <= n {
            out.push(ctx.get(&id).map(|node| node.val).unwrap_or(0));
        }
    }
    json!(out)
}

/// The messages errors are made with: whatever they are, they have to reach the caller.
pub fn message(n: usize) -> String {
    match n % 8 {
        0 => format!("E{n}"),
        1 => format!("E{n}\nsecond line\n"),
        2 => String::new(),
        3 => format!(" \tE{n} \n"),
        4 => "nothing to apply".into(),
        5 => format!("E{n}{}", "x".repeat(3000)),
        6 => format!("\u{e9}{n}\u{2205}\0{{}}"),
        _ => " ".into(),
    }
}

/// A message that no other number has.
pub fn own_message(n: usize) -> String {
    match n % 8 {
        2 | 4 | 7 if n >= 8 => format!("{n}"),
        _ => message(n),
    }
}

static PANIC: Mutex<String> = Mutex::new(String::new());
pub fn remember_panic(msg: String) {
    if let Ok(mut p) = PANIC.lock() {
        *p = msg;
    }
}
pub fn last_panic() -> String {
    PANIC.lock().map(|p| p.clone()).unwrap_or_default()
}

/// Marker for panics the scenario itself asks for.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Planned {
    /// unwinds to the nearest catch point
    One,
    /// unwinds through every running closure
    All,
}

pub fn planned(payload: &(dyn Any + Send)) -> Option<Planned> {
    payload.downcast_ref::<Planned>().copied()
}

pub fn describe(payload: &(dyn Any + Send)) -> String {
    if let Some(p) = planned(payload) {
        return format!("{p:?}");
    }
    payload
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

static CURRENT: AtomicU64 = AtomicU64::new(0);
static BEATS: AtomicU64 = AtomicU64::new(0);
pub const HANG_SECS: u64 = 25;

pub fn begin_scenario(n: usize) {
    CURRENT.store(n as u64 + 1, Ordering::SeqCst);
    BEATS.fetch_add(1, Ordering::SeqCst);
    PANIC.lock().map(|mut p| p.clear()).ok();
    // progress marker used to find the scenario that killed the process; a raw write, so that
    // nothing is lost when the process dies
    let mark = format!("{n}\n");
    std::io::Write::write_all(&mut std::io::stderr(), mark.as_bytes()).ok();
}
pub fn end_scenario() {
    CURRENT.store(0, Ordering::SeqCst);
}

/// A scenario takes microseconds; one that is still running after HANG_SECS is stuck.
pub fn start_watchdog() {
    std::thread::spawn(|| {
        let (mut seen, mut secs) = (0, 0);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let beats = BEATS.load(Ordering::SeqCst);
            let current = CURRENT.load(Ordering::SeqCst);
            if current == 0 || beats != seen {
                seen = beats;
                secs = 0;
                continue;
            }
            secs += 1;
            if secs >= HANG_SECS {
                println!("\n@H{}", json!({"scenario": current - 1}));
                std::process::exit(3);
            }
        }
    });
}

/// A small deterministic generator for recorded scenarios.
pub struct Rng(std::cell::Cell<u64>);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(std::cell::Cell::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03))
    }
    pub fn next(&self) -> u64 {
        let mut z = self.0.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        self.0.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Picks by weight.
    pub fn weighted<'a, T>(&self, items: &'a [(usize, T)]) -> &'a T {
        let total: usize = items.iter().map(|(w, _)| *w).sum();
        let mut at = self.below(total);
        for (w, item) in items {
            if at < *w {
                return item;
            }
            at -= w;
        }
        unreachable!("HARNESS: weights")
    }
}

/// A plugin that does what it is told to.
pub struct By(pub Box<dyn FnOnce(plotline::schema::Schema<Node>) -> plotline::schema::Schema<Node>>);

impl plotline::schema::plugin::Plugin<Node> for By {
    fn install(self, schema: plotline::schema::Schema<Node>) -> plotline::schema::Schema<Node> {
        self.0(schema)
    }
}

/// Changes the schema itself, by a plugin, or by a plugin that installs another one.
pub fn somehow(
    how: usize,
    schema: plotline::schema::Schema<Node>,
    change: impl FnOnce(plotline::schema::Schema<Node>) -> plotline::schema::Schema<Node> + 'static,
) -> plotline::schema::Schema<Node> {
    match how % 3 {
        0 => change(schema),
        1 => schema.install(By(Box::new(change))),
        _ => schema.install(By(Box::new(|schema| schema.install(By(Box::new(change)))))),
    }
}
