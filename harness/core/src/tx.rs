//! Driver of Transactions.tla.
//!
//! Handles and contexts are kept behind raw pointers so that any interleaving the specification
//! allows can be performed; the order of creation and destruction is one safe code could have.

use crate::common::*;
use plotline::{
    graph::Graph,
    prelude::*,
    schema::transaction::{Background, Context, Foreground, Transaction},
};
use serde_json::{json, Value};
use std::{
    cell::{Cell, RefCell},
    panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe},
    sync::mpsc,
    time::Duration,
};

type C = Context<'static, Node>;

enum Handle {
    None,
    Top(*mut Background<'static, Node>),
    Sub(*mut Foreground<'static, Node>),
}

struct Slot {
    handle: Handle,
    running: bool,
    par: usize,
    top: bool,
    /// contexts obtained from the handle (owned) or the one of the running closure (borrowed)
    ctxs: Vec<*mut C>,
}

impl Slot {
    fn empty() -> Self {
        Slot { handle: Handle::None, running: false, par: 0, top: false, ctxs: Vec::new() }
    }
    fn live(&self) -> bool {
        self.running || !matches!(self.handle, Handle::None)
    }
}

struct Waiter {
    rx: mpsc::Receiver<Value>,
}

struct World<'s> {
    schema: &'static Schema<Node>,
    steps: &'s [Value],
    next: Cell<usize>,
    slots: RefCell<Vec<Slot>>,
    wstack: RefCell<Vec<usize>>,
    waiter: RefCell<Option<Waiter>>,
    out: RefCell<Vec<Value>>,
    ids: u32,
    dead: Cell<bool>,
}

enum Outcome {
    Ok,
    Err,
    Noop,
    Panic,
    PanicAll,
    /// the scenario is over
    Stop,
}

pub fn run(steps: &[Value]) -> Vec<Value> {
    let init = nums(&steps[0]["g"]);
    let nodes = init
        .iter()
        .enumerate()
        .filter(|(_, v)| **v != 0)
        .map(|(k, v)| Node::new(k as u32 + 1, *v));
    let graph: Graph<Node> = if steps.len() % 2 == 0 {
        nodes.rev().collect()
    } else {
        nodes.fold(Graph::default(), Graph::with_node)
    };
    let slots = steps[0].get("nt").and_then(Value::as_u64).unwrap_or(24) as usize;
    let schema: *mut Schema<Node> = Box::into_raw(Box::new(Schema::from(graph)));
    let world = World {
        schema: unsafe { &*schema },
        steps,
        next: Cell::new(1),
        slots: RefCell::new((0..=slots).map(|_| Slot::empty()).collect()),
        wstack: Default::default(),
        waiter: Default::default(),
        out: Default::default(),
        ids: init.len() as u32,
        dead: Cell::new(false),
    };
    world.record(&steps[0], json!({}));
    world.level();
    world.next.set(steps.len());
    let clean = !world.dead.get() && world.waiter.borrow().is_none();
    let World { slots, out, .. } = world;
    if clean {
        // children before parents
        let mut slots = slots.into_inner();
        for slot in slots.iter_mut().rev() {
            for ctx in slot.ctxs.drain(..) {
                drop(unsafe { Box::from_raw(ctx) });
            }
        }
        for slot in slots.iter_mut().rev() {
            drop_handle(std::mem::replace(&mut slot.handle, Handle::None));
        }
        drop(unsafe { Box::from_raw(schema) });
    }
    out.into_inner()
}

fn drop_handle(handle: Handle) {
    match handle {
        Handle::None => {}
        Handle::Top(p) => drop(unsafe { Box::from_raw(p) }),
        Handle::Sub(p) => drop(unsafe { Box::from_raw(p) }),
    }
}

impl World<'_> {
    /// The top-level transaction in use, if any: the one that should hold the graph.
    fn holder(&self) -> usize {
        let slots = self.slots.borrow();
        (1..slots.len())
            .find(|&t| slots[t].top && (slots[t].running || !slots[t].ctxs.is_empty()))
            .unwrap_or(0)
    }

    fn state(&self) -> Value {
        let free = self.holder() == 0;
        let g = if free { graph_value(&self.schema.read(), self.ids) } else { json!([]) };
        let slots = self.slots.borrow();
        let nt = self.steps[0].get("nt").and_then(Value::as_u64).map(|n| n as usize);
        let mut views: Vec<Value> = Vec::new();
        for t in 1..slots.len() {
            let mut view = json!([]);
            for (k, ctx) in slots[t].ctxs.iter().enumerate() {
                let v = ctx_value(unsafe { &**ctx }, self.ids);
                if k > 0 && v != view {
                    view = json!(format!("contexts of {t} disagree: {view} / {v}"));
                    break;
                }
                view = v;
            }
            views.push(view);
        }
        if let Some(nt) = nt {
            views.truncate(nt);
        }
        json!({"f": free, "g": g, "v": views})
    }

    fn record(&self, step: &Value, obs: Value) {
        if self.dead.get() {
            return;
        }
        let mut entry = step.clone();
        let map = entry.as_object_mut().expect("HARNESS: step");
        map.remove("r");
        map.remove("w");
        for (k, v) in obs.as_object().expect("HARNESS: obs") {
            map.insert(k.clone(), v.clone());
        }
        match catch_unwind(AssertUnwindSafe(|| self.state())) {
            Ok(x) => {
                map.insert("x".into(), x);
            }
            Err(payload) => {
                map.insert("unexpected".into(), json!(format!("reading panicked: {}", describe(&*payload))));
                self.dead.set(true);
            }
        }
        self.out.borrow_mut().push(entry);
    }

    fn fail(&self, step: &Value, what: String) {
        if !self.dead.get() {
            let mut entry = step.clone();
            entry["unexpected"] = json!(what);
            self.out.borrow_mut().push(entry);
            self.dead.set(true);
        }
    }

    /// Waits for the thread that asked for access, now that it should get it.
    fn woken(&self) -> Value {
        if self.waiter.borrow().is_none() || self.holder() != 0 {
            return json!([]);
        }
        let waiter = self.waiter.borrow_mut().take().expect("waiter");
        waiter
            .rx
            .recv_timeout(Duration::from_secs(20))
            .unwrap_or_else(|_| json!("never got access"))
    }

    fn spawn(&self, kind: &str) -> Waiter {
        struct Shared(&'static Schema<Node>);
        // Only the graph's lock is touched from the other thread; nodes are Send + Sync.
        unsafe impl Send for Shared {}
        let shared = Shared(self.schema);
        let (tx, rx) = mpsc::channel();
        let kind = kind.to_owned();
        let ids = self.ids;
        std::thread::spawn(move || {
            let shared = shared;
            let schema = shared.0;
            let seen = catch_unwind(AssertUnwindSafe(|| match kind.as_str() {
                "read" => graph_value(&schema.read(), ids),
                "write" => graph_value(&schema.write(), ids),
                _ => schema
                    .transaction()
                    .with(|ctx| Ok(ctx_value(&ctx, ids)))
                    .unwrap_or_else(|err| json!(err.to_string())),
            }))
            .unwrap_or_else(|p| json!(format!("panicked: {}", describe(&*p))));
            tx.send(seen).ok();
        });
        Waiter { rx }
    }

    fn level(&self) -> Outcome {
        loop {
            if self.dead.get() {
                return Outcome::Stop;
            }
            let k = self.next.get();
            let Some(step) = self.steps.get(k) else {
                return Outcome::Stop;
            };
            self.next.set(k + 1);
            match text(step, "a") {
                "End" => {
                    return match text(step, "how") {
                        "ok" => Outcome::Ok,
                        "err" => Outcome::Err,
                        "noop" => Outcome::Noop,
                        _ => Outcome::Panic,
                    }
                }
                "PanicAll" => return Outcome::PanicAll,
                "With" => self.with(k),
                _ => {
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| self.simple(step))) {
                        self.fail(step, describe(&*p));
                    }
                }
            }
        }
    }

    fn simple(&self, step: &Value) {
        let obs = match text(step, "a") {
            "Open" => {
                let tx = Box::into_raw(Box::new(self.schema.transaction()));
                let slot = &mut self.slots.borrow_mut()[num(step, "t")];
                *slot = Slot { handle: Handle::Top(tx), top: true, ..Slot::empty() };
                json!({})
            }
            "Sub" => {
                let p = num(step, "p");
                let parent: &'static C = unsafe { &**self.slots.borrow()[p].ctxs.last().expect("HARNESS: ctx") };
                let tx = Box::into_raw(Box::new(parent.transaction()));
                let slot = &mut self.slots.borrow_mut()[num(step, "t")];
                *slot = Slot { handle: Handle::Sub(tx), par: p, ..Slot::empty() };
                json!({})
            }
            "Ctx" => {
                let t = num(step, "t");
                let ctx: C = {
                    let slots = self.slots.borrow();
                    match slots[t].handle {
                        Handle::Top(p) => Context::from(unsafe { &*p }),
                        Handle::Sub(p) => Context::from(unsafe { &*p }),
                        Handle::None => panic!("HARNESS: no handle {t}"),
                    }
                };
                self.slots.borrow_mut()[t].ctxs.push(Box::into_raw(Box::new(ctx)));
                json!({})
            }
            "Save" => {
                self.ctx(step).save(Node::new(num(step, "id") as u32, num(step, "v") as u32));
                json!({})
            }
            "Bulk" => {
                let ctx = self.ctx(step);
                let m = num(step, "m") as u32;
                for k in 1..=num(step, "n") as u32 {
                    let (id, val) = (k % m + 1, k / m % 4);
                    if val == 0 {
                        ctx.delete(id);
                    } else {
                        ctx.save(Node::new(id, val));
                    }
                }
                json!({})
            }
            "Del" => {
                self.ctx(step).delete(num(step, "id") as u32);
                json!({})
            }
            "Drop" => {
                let t = num(step, "t");
                let slot = std::mem::replace(&mut self.slots.borrow_mut()[t], Slot::empty());
                for ctx in slot.ctxs {
                    drop(unsafe { Box::from_raw(ctx) });
                }
                drop_handle(slot.handle);
                json!({"w": self.woken()})
            }
            "Put" => {
                let node = Node::new(num(step, "id") as u32, num(step, "v") as u32);
                let old = self.schema.write().insert(node);
                json!({"r": old_value(old, num(step, "id") as u32)})
            }
            "Rem" => {
                let old = self.schema.write().remove(&(num(step, "id") as u32));
                json!({"r": old_value(old, num(step, "id") as u32)})
            }
            "PutPanic" => {
                let node = Node::new(num(step, "id") as u32, num(step, "v") as u32);
                catch_unwind(AssertUnwindSafe(|| {
                    let mut guard = self.schema.write();
                    guard.insert(node);
                    panic_any(Planned::One);
                }))
                .ok();
                json!({})
            }
            "Wait" => {
                let waiter = self.spawn(text(step, "k"));
                match waiter.rx.recv_timeout(Duration::from_millis(12)) {
                    Ok(_) => json!({"r": "granted"}),
                    Err(_) => {
                        *self.waiter.borrow_mut() = Some(waiter);
                        json!({"r": "blocked"})
                    }
                }
            }
            "Peek" => {
                let waiter = self.spawn(text(step, "k"));
                let seen = waiter
                    .rx
                    .recv_timeout(Duration::from_secs(20))
                    .unwrap_or_else(|_| json!("never got access"));
                json!({"w": seen})
            }
            other => panic!("HARNESS: action {other}"),
        };
        self.record(step, obs);
    }

    fn ctx(&self, step: &Value) -> &'static C {
        let slots = self.slots.borrow();
        unsafe { &*slots[num(step, "t")].ctxs[num(step, "c") - 1] }
    }

    fn with(&self, k: usize) {
        let step = &self.steps[k];
        let t = num(step, "t");
        let (handle, old) = {
            let slot = &mut self.slots.borrow_mut()[t];
            slot.running = true;
            (std::mem::replace(&mut slot.handle, Handle::None), std::mem::take(&mut slot.ctxs))
        };
        let lingering = if flag(step, "linger") {
            old
        } else {
            old.into_iter().for_each(|ctx| drop(unsafe { Box::from_raw(ctx) }));
            Vec::new()
        };
        self.wstack.borrow_mut().push(t);
        match handle {
            Handle::Top(p) => self.run_with(k, t, *unsafe { Box::from_raw(p) }),
            Handle::Sub(p) => self.run_with(k, t, *unsafe { Box::from_raw(p) }),
            Handle::None => panic!("HARNESS: no handle {t}"),
        }
        lingering.into_iter().for_each(|ctx| drop(unsafe { Box::from_raw(ctx) }));
    }

    fn run_with(&self, k: usize, t: usize, tx: impl Transaction<Target = Node>) {
        let token = 7000 + k;
        let mut entered = 0;
        let mut ended = false;
        let result = catch_unwind(AssertUnwindSafe(|| {
            tx.with(|ctx| {
                entered += 1;
                let ctx: Box<C> = Box::new(unsafe { std::mem::transmute::<Context<'_, Node>, C>(ctx) });
                let ctx = Box::into_raw(ctx);
                self.slots.borrow_mut()[t].ctxs = vec![ctx];
                self.record(&self.steps[k], json!({}));
                let outcome = self.level();
                if let Outcome::PanicAll = outcome {
                    self.drop_doomed();
                }
                ended = !matches!(outcome, Outcome::Stop);
                self.slots.borrow_mut()[t].ctxs.clear();
                drop(unsafe { Box::from_raw(ctx) });
                match outcome {
                    Outcome::Ok => Ok(token),
                    Outcome::Err | Outcome::Stop => Err(plotline::schema::Error::custom(message(k))),
                    Outcome::Noop => Err(plotline::schema::Error::Noop),
                    Outcome::Panic => panic_any(Planned::One),
                    Outcome::PanicAll => panic_any(Planned::All),
                }
            })
        }));
        // the transaction is gone
        self.slots.borrow_mut()[t] = Slot::empty();
        self.wstack.borrow_mut().pop();
        let unwound = matches!(&result, Err(p) if planned(&**p) == Some(Planned::All));
        if self.dead.get() || !(ended || unwound || result.is_err()) {
            return; // scenario over: nothing to observe
        }
        let step = &self.steps[self.next.get() - 1];
        if entered != 1 {
            self.fail(step, format!("the closure ran {entered} times"));
            return;
        }
        let r = match result {
            Ok(Ok(value)) if value == token => "ok".to_string(),
            Ok(Ok(value)) => format!("ok with {value} instead of {token}"),
            Ok(Err(plotline::schema::Error::Msg(msg))) if msg == message(k) => "err".to_string(),
            Ok(Err(plotline::schema::Error::Noop)) => "noop".to_string(),
            Ok(Err(err)) => format!("err {err:?}"),
            Err(payload) => match planned(&*payload) {
                Some(Planned::One) => "panic".to_string(),
                Some(Planned::All) if !self.wstack.borrow().is_empty() => resume_unwind(payload),
                Some(Planned::All) => "panic".to_string(),
                None => {
                    self.fail(step, describe(&*payload));
                    return;
                }
            },
        };
        let w = self.woken();
        self.record(step, json!({"r": r, "w": w}));
    }

    /// Drops the handles that live inside the closures being unwound by PanicAll.
    fn drop_doomed(&self) {
        let doomed: Vec<usize> = {
            let slots = self.slots.borrow();
            let below = |mut u: usize| loop {
                if u == 0 || slots[u].running {
                    return u != 0;
                }
                u = slots[u].par;
            };
            (1..slots.len())
                .filter(|&u| slots[u].live() && !slots[u].running && below(u))
                .collect()
        };
        // contexts first: they borrow the handles
        for &u in &doomed {
            let ctxs = std::mem::take(&mut self.slots.borrow_mut()[u].ctxs);
            ctxs.into_iter().for_each(|ctx| drop(unsafe { Box::from_raw(ctx) }));
        }
        for &u in &doomed {
            let slot = std::mem::replace(&mut self.slots.borrow_mut()[u], Slot::empty());
            drop_handle(slot.handle);
        }
    }
}

pub fn old_value(old: Option<Node>, id: u32) -> Value {
    match old {
        Some(node) if node.id == id && node.coherent() => json!(node.val),
        Some(node) => json!(format!("{node:?}")),
        None => json!(0),
    }
}
