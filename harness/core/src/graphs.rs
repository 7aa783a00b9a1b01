//! Driver of Graphs.tla (Init has `host`) and Proxies.tla (Init has `kind`).

use crate::common::*;
use crate::tx::old_value;
use plotline::{
    deref::TryDeref,
    graph::{Graph, NodeProxy, Source},
    id::Identify,
    schema::{
        transaction::{Context, Transaction},
        Schema,
    },
};
use serde_json::{json, Value};
use std::{
    collections::HashMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Barrier, RwLock,
    },
    time::{Duration, Instant},
};

pub fn run(steps: &[Value]) -> Vec<Value> {
    if steps[0].get("host").is_some() {
        map(steps)
    } else {
        proxies(steps)
    }
}

/// Strips what the specification recorded about a step.
fn bare(step: &Value) -> Value {
    let mut step = step.clone();
    let map = step.as_object_mut().expect("HARNESS: step");
    map.remove("x");
    map.remove("r");
    map.remove("rs");
    step
}

fn push(out: &mut Vec<Value>, step: &Value, action: impl FnOnce(&mut Value) -> Value) -> bool {
    let mut entry = bare(step);
    match catch_unwind(AssertUnwindSafe(|| action(&mut entry))) {
        Ok(x) => {
            entry["x"] = x;
            out.push(entry);
            true
        }
        Err(p) => {
            entry["unexpected"] = json!(describe(&*p));
            out.push(entry);
            false
        }
    }
}

// ---------------------------------------------------------------------------------------------

enum Host {
    Graph(Graph<Node>),
    Schema(Schema<Node>),
}

fn map(steps: &[Value]) -> Vec<Value> {
    let ids = num(&steps[0], "ni") as u32;
    let schema = text(&steps[0], "host") == "schema";
    let wrap = |g: Graph<Node>| if schema { Host::Schema(g.into()) } else { Host::Graph(g) };
    let mut host = Some(wrap(Graph::default()));
    let mut out = vec![];
    for step in steps {
        let ok = push(&mut out, step, |entry| {
            match text(step, "a") {
                "Init" => {}
                "FromIter" => {
                    let nodes: Vec<Node> = step["nodes"]
                        .as_array()
                        .expect("HARNESS: nodes")
                        .iter()
                        .map(nums)
                        .map(|n| Node::new(n[0], n[1]))
                        .collect();
                    // iterators that know how many nodes are left, and iterators that do not
                    host = Some(wrap(match nodes.len() % 3 {
                        0 => nodes.into_iter().collect(),
                        1 => nodes.into_iter().filter(|_| true).collect(),
                        _ => {
                            let mut rest = nodes.into_iter();
                            Graph::from_iter(std::iter::from_fn(move || rest.next()))
                        }
                    }));
                }
                "Insert" => {
                    let node = Node::new(num(step, "id") as u32, num(step, "v") as u32);
                    let id = node.id;
                    let old = match host.as_mut().expect("HARNESS: host") {
                        Host::Graph(g) => g.insert(node),
                        Host::Schema(s) => s.write().insert(node),
                    };
                    entry["r"] = old_value(old, id);
                }
                "WithNode" => {
                    let node = Node::new(num(step, "id") as u32, num(step, "v") as u32);
                    match host.take().expect("HARNESS: host") {
                        Host::Graph(g) => host = Some(Host::Graph(g.with_node(node))),
                        Host::Schema(s) => {
                            // a schema cannot give its graph back: rebuild it from its nodes
                            let nodes: Vec<Node> = (&*s.read()).into_iter().cloned().collect();
                            host = Some(wrap(Graph::from_iter(nodes).with_node(node)));
                        }
                    }
                }
                "Remove" => {
                    let id = num(step, "id") as u32;
                    let old = match host.as_mut().expect("HARNESS: host") {
                        Host::Graph(g) => g.remove(&id),
                        Host::Schema(s) => s.write().remove(&id),
                    };
                    entry["r"] = old_value(old, id);
                }
                other => panic!("HARNESS: action {other}"),
            }
            let g = match host.as_ref().expect("HARNESS: host") {
                Host::Graph(g) => graph_value(g, ids),
                Host::Schema(s) => {
                    let read = graph_value(&s.read(), ids);
                    let write = graph_value(&s.write(), ids);
                    if read == write { read } else { json!(format!("read() {read}, write() {write}")) }
                }
            };
            json!({ "g": g })
        });
        if !ok {
            break;
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------

/// A source of the user's own whose nodes change.
#[derive(Default)]
struct Custom {
    nodes: RwLock<HashMap<u32, Node>>,
    /// While threads race: the change that happens as soon as one of them got its answer.
    change: RwLock<Option<(u32, Option<Node>)>>,
    calls: AtomicUsize,
}

impl Custom {
    fn put(&self, id: u32, node: Option<Node>) {
        let mut nodes = self.nodes.write().expect("HARNESS: source");
        match node {
            Some(node) => nodes.insert(id, node),
            None => nodes.remove(&id),
        };
    }
}

impl Source for Custom {
    type Node = Node;
    fn get(&self, id: &u32) -> Option<Node> {
        let answer = self.nodes.read().expect("HARNESS: source").get(id).cloned();
        let change = self.change.read().expect("HARNESS: source").clone();
        if let Some((changed, node)) = change {
            if self.calls.fetch_add(1, Ordering::SeqCst) == 0 {
                self.put(changed, node);
                // lets another thread get as far as this
                let limit = Instant::now() + Duration::from_millis(2);
                while self.calls.load(Ordering::SeqCst) < 2 && Instant::now() < limit {
                    std::thread::yield_now();
                }
            }
        }
        answer
    }
    fn contains(&self, id: &u32) -> bool {
        self.nodes.read().expect("HARNESS: source").contains_key(id)
    }
}

/// Resolves a proxy from several threads at once, if it can be shared at all.
struct Racing<'a, T>(&'a T);

trait Shared {
    fn resolve(&self, n: usize) -> Vec<Option<Node>>;
}
impl<T: TryDeref<Target = Node> + Sync> Shared for Racing<'_, T> {
    fn resolve(&self, n: usize) -> Vec<Option<Node>> {
        let (proxy, barrier) = (self.0, Barrier::new(n));
        std::thread::scope(|scope| {
            let threads: Vec<_> = (0..n)
                .map(|_| {
                    scope.spawn(|| {
                        barrier.wait();
                        proxy.try_deref().cloned()
                    })
                })
                .collect();
            threads.into_iter().map(|t| t.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
        })
    }
}
// (only needed if proxies cannot be shared)
#[allow(dead_code)]
trait Unshared {
    fn resolve(&self, n: usize) -> Vec<Option<Node>>;
}
impl<T: TryDeref<Target = Node>> Unshared for &Racing<'_, T> {
    fn resolve(&self, n: usize) -> Vec<Option<Node>> {
        (0..n).map(|_| self.0.try_deref().cloned()).collect()
    }
}

fn proxies(steps: &[Value]) -> Vec<Value> {
    let init = &steps[0];
    let ids = num(init, "ni") as u32;
    let edges: Vec<Vec<u32>> = init["edges"].as_array().expect("HARNESS: edges").iter().map(nums).collect();
    // the nodes of an "alias" source are found by ids that are not their own
    let shift = if text(init, "kind") == "alias" { 100 } else { 0 };
    let make = move |id: u32, val: u32| Node { id: id + shift, val, edges: edges[val as usize - 1].clone() };
    let nodes: Vec<Node> = nums(&init["g"])
        .iter()
        .enumerate()
        .filter(|(_, v)| **v != 0)
        .map(|(k, v)| make(k as u32 + 1, *v))
        .collect();
    match text(init, "kind") {
        "graph" => {
            let graph: Graph<Node> = nodes.into_iter().collect();
            let race = |_: &Graph<Node>, p: &NodeProxy<'_, Graph<Node>>, n, _, _: Option<Node>| (&Racing(p)).resolve(n);
            play(steps, ids, &make, &graph, |g, id| g.node(id), |_, _, _| panic!("HARNESS: graphs do not change"), race)
        }
        "custom" | "alias" => {
            let custom = Custom::default();
            nodes.into_iter().for_each(|n| custom.put(n.id - shift, Some(n)));
            let race = |c: &Custom, p: &NodeProxy<'_, Custom>, n, id, node: Option<Node>| {
                c.calls.store(0, Ordering::SeqCst);
                *c.change.write().expect("HARNESS: source") = Some((id, node.clone()));
                let results = (&Racing(p)).resolve(n);
                *c.change.write().expect("HARNESS: source") = None;
                c.put(id, node);
                results
            };
            play(steps, ids, &make, &custom, NodeProxy::new, |c, id, node| c.put(id, node), race)
        }
        kind => {
            let (first, second): (Vec<Node>, Vec<Node>) = nodes.into_iter().partition(|n| n.id % 3 != 0 || kind == "ctx");
            let graph: Graph<Node> = first.into_iter().collect();
            let schema: Schema<Node> = graph.into();
            let tx = schema.transaction();
            let ctx = Context::from(&tx);
            let change = |c: &Context<'_, Node>, id: u32, node: Option<Node>| match node {
                Some(node) => c.save(node),
                None => c.delete(id),
            };
            let race = |_: &Context<'_, Node>, _: &NodeProxy<'_, Context<'_, Node>>, _, _, _: Option<Node>| {
                panic!("HARNESS: contexts are not shared")
            };
            if kind == "ctx" {
                return play(steps, ids, &make, &ctx, |c, id| c.node(id), change, race);
            }
            second.into_iter().for_each(|n| ctx.save(n));
            let mut out = vec![];
            ctx.transaction()
                .with(|inner| {
                    out = play(steps, ids, &make, &inner, |c, id| c.node(id), change, race);
                    Ok(())
                })
                .ok();
            out
        }
    }
}

fn play<'s, S: Source<Node = Node>>(
    steps: &[Value],
    ids: u32,
    make: &impl Fn(u32, u32) -> Node,
    source: &'s S,
    new: impl Fn(&'s S, u32) -> NodeProxy<'s, S>,
    change: impl Fn(&S, u32, Option<Node>),
    race: impl Fn(&S, &NodeProxy<'s, S>, usize, u32, Option<Node>) -> Vec<Option<Node>>,
) -> Vec<Value> {
    let np = num(&steps[0], "np");
    let mut slots: Vec<Option<NodeProxy<'s, S>>> = (0..=np).map(|_| None).collect();
    // whether some resolution happened: reading an unresolved proxy would resolve it
    let mut resolved = vec![false; np + 1];
    let mut out = vec![];
    let shown = |node: Option<&Node>, id: u32| match node {
        None => json!(0),
        Some(n) if *n == make(id, n.val) => json!(n.val),
        Some(n) => json!(format!("{n:?} for {id}")),
    };
    for step in steps {
        let p = || num(step, "p");
        let ok = push(&mut out, step, |entry| {
            match text(step, "a") {
                "Init" => {}
                "New" => {
                    slots[p()] = Some(new(source, num(step, "id") as u32));
                    resolved[p()] = false;
                }
                "Deref" => {
                    let proxy = slots[p()].as_ref().expect("HARNESS: proxy");
                    entry["r"] = shown(proxy.try_deref(), proxy.id);
                    resolved[p()] = true;
                }
                "Clone" => {
                    let q = num(step, "q");
                    slots[q] = slots[p()].clone();
                    resolved[q] = resolved[p()];
                }
                "Succ" => {
                    let (k, q) = (num(step, "k"), num(step, "q"));
                    let mut list = slots[p()].as_ref().expect("HARNESS: proxy").successors::<Edge>();
                    entry["r"] = json!(list.iter().map(|s| *s.id()).collect::<Vec<u32>>());
                    resolved[p()] = true;
                    if k > 0 {
                        if list.len() < k {
                            panic!("too few successors");
                        }
                        slots[q] = Some(list.swap_remove(k - 1));
                        resolved[q] = false;
                    }
                }
                "Drop" => slots[p()] = None,
                "Race" => {
                    let (n, v) = (num(step, "n"), num(step, "v") as u32);
                    let proxy = slots[p()].as_ref().expect("HARNESS: proxy");
                    let node = if v == 0 || proxy.id > ids { None } else { Some(make(proxy.id, v)) };
                    let results = race(source, proxy, n, proxy.id, node);
                    entry["rs"] = json!(results.iter().map(|r| shown(r.as_ref(), proxy.id)).collect::<Vec<_>>());
                    resolved[p()] = true;
                }
                "Set" => {
                    let (id, v) = (num(step, "id") as u32, num(step, "v") as u32);
                    change(source, id, if v == 0 { None } else { Some(make(id, v)) });
                }
                other => panic!("HARNESS: action {other}"),
            }
            let shown_slots: Vec<Value> = (1..=np)
                .map(|k| match &slots[k] {
                    None => json!({"id": 0, "virt": true, "val": -1}),
                    Some(proxy) => json!({
                        "id": *proxy.id(),
                        "virt": proxy.is_virtual(),
                        "val": if resolved[k] { shown(proxy.try_deref(), proxy.id) } else { json!(-1) },
                    }),
                })
                .collect();
            let g: Vec<Value> = (1..=ids)
                .map(|id| {
                    let got = source.get(&id);
                    if got.is_some() != source.contains(&id) {
                        json!(format!("source disagrees with itself about {id}"))
                    } else {
                        shown(got.as_ref(), id)
                    }
                })
                .collect();
            json!({"g": g, "p": shown_slots})
        });
        if !ok {
            break;
        }
    }
    out
}
