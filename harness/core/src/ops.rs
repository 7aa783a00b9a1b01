//! Driver of Operations.tla.
//!
//! One interpreter performs the steps in whatever user code has control: the test itself, the
//! closure of a transaction, or the body of a trigger. Every step is recorded by the user code that
//! gets control next.

use crate::common::*;
use plotline::{
    deref::{With, WithMut},
    graph::Graph,
    prelude::*,
    schema::{
        ops::{
            delete::{AfterDelete, BeforeDelete, Delete},
            save::{AfterSave, BeforeSave, Save},
        },
        resource::Res,
        transaction::{Context, Ctx, Target, Transaction},
        trigger::Trigger,
        Error,
    },
};
use serde_json::{json, Value};
use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::HashMap,
    panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe},
    rc::Rc,
    result::Result,
};

struct Counter(u32);
struct Missing;

#[derive(Clone, Copy)]
struct Token(usize);

/// Everything a trigger argument can learn from the context it is made of.
struct Probe {
    target: Target<Node>,
    view: Value,
    res: Res<Counter>,
    unset: Res<Missing>,
}

thread_local!(static IDS: Cell<u32> = const { Cell::new(0) });

impl From<&Context<'_, Node>> for Probe {
    fn from(ctx: &Context<'_, Node>) -> Self {
        Probe {
            target: ctx.target().clone(),
            view: ctx_value(ctx, IDS.get()),
            res: ctx.into(),
            unset: ctx.into(),
        }
    }
}

/// Something to do with a schedule of the test's own.
enum Job<'a> {
    Register(Schema<Node>, usize, usize, &'a Rc<World>),
    Select(&'a Context<'a, Node>),
}

impl Job<'_> {
    fn run<S: 'static>(self, s: impl Fn() -> S + 'static) -> Result<Schema<Node>, Result<(), Error>> {
        match self {
            Job::Register(schema, n, arity, world) => Ok(register(schema, s, n, arity, world)),
            Job::Select(ctx) => Err(ctx.triggers().select(s()).execute(ctx)),
        }
    }
}

/// The schedules X and Y are distinct types that print the same: each is declared in a block.
fn own_schedule(which: &str, job: Job) -> Result<Schema<Node>, Result<(), Error>> {
    match which {
        "X" => {
            struct Mark;
            job.run(|| Mark)
        }
        "Y" => {
            struct Mark;
            job.run(|| Mark)
        }
        other => panic!("HARNESS: schedule {other}"),
    }
}

enum Who<'a, 'c> {
    Base,
    Tx(&'a mut Option<Context<'c, Node>>),
    Trig { n: usize, ctx: &'a Ctx<'c, Node>, target: Option<Target<Node>>, res: Option<Res<Counter>> },
}

enum Flow {
    Go,
    Ret(Result<(), Error>),
    Panic(usize),
    Stop,
}

struct World {
    schema: Cell<*const Schema<Node>>,
    steps: Vec<Value>,
    gen: Option<Gen>,
    next: Cell<usize>,
    pending: RefCell<Option<Value>>,
    out: RefCell<Vec<Value>>,
    over: Cell<bool>,
    depth: Cell<usize>,
    /// A handle of a target that user code keeps for later.
    kept: RefCell<Option<Target<Node>>>,
}

struct Gen {
    rng: Rng,
    len: usize,
    ids: usize,
    depth: usize,
    value: Cell<u32>,
    /// there are so many triggers that most of them had better do nothing
    many: Cell<bool>,
}

fn stop() -> Error {
    Error::custom("STOP")
}

fn tgt_value(target: &Target<Node>) -> Value {
    target.with(|node| json!([node.id, node.val])).unwrap_or_else(|| json!([]))
}

fn node(id: u32, val: u32) -> Node {
    Node::new(id, val)
}

thread_local! {
    /// The last error made with each message.
    static THROWN: RefCell<HashMap<String, usize>> = RefCell::default();
}

fn error(n: usize) -> Error {
    THROWN.with(|thrown| thrown.borrow_mut().insert(own_message(n), n));
    Error::custom(own_message(n))
}

fn err_name(err: &Error) -> String {
    match err {
        Error::Noop => "err:noop".into(),
        Error::Msg(msg) => match THROWN.with(|thrown| thrown.borrow().get(msg).copied()) {
            Some(n) => format!("err:{n}"),
            None => format!("err? {msg}"),
        },
    }
}

pub fn run(steps: &[Value]) -> Vec<Value> {
    let init = &steps[0];
    let gen = init.get("seed").map(|_| Gen {
        rng: Rng::new(num(init, "seed") as u64),
        len: num(init, "len"),
        ids: num(init, "ni"),
        depth: num(init, "depth"),
        value: Cell::new(100),
        many: Cell::new(false),
    });
    let (graph, regs) = match &gen {
        None => (nums(&init["g"]), init["regs"].clone()),
        Some(gen) => {
            let rng = &gen.rng;
            let schedules = ["BS", "AS", "BD", "AD", "X", "Y"];
            let mut few: Vec<&str> = schedules.to_vec();
            if rng.chance(50) {
                few.truncate(1 + rng.below(4));
            }
            let many = rng.chance(6);
            if many {
                gen.many.set(true);
                few.truncate(1 + rng.below(2));
            }
            let regs: Vec<Value> = (0..if many { 20 + rng.below(60) } else { rng.below(7) })
                .map(|_| json!({"s": *rng.pick(&few), "n": if rng.chance(60) { 1 + rng.below(3) } else { rng.below(9) }}))
                .collect();
            ((0..gen.ids).map(|_| rng.below(3) as u32).collect(), json!(regs))
        }
    };
    IDS.set(graph.len() as u32);
    TICKS.set(0);
    let world = Rc::new(World {
        schema: Cell::new(std::ptr::null()),
        steps: steps.to_vec(),
        gen,
        next: Cell::new(1),
        pending: RefCell::new(Some(json!({"a": "Init", "g": graph, "regs": regs}))),
        out: Default::default(),
        over: Cell::new(false),
        depth: Cell::new(0),
        kept: Default::default(),
    });

    let nodes: Graph<Node> =
        graph.iter().enumerate().filter(|(_, v)| **v != 0).map(|(k, v)| node(k as u32 + 1, *v)).collect();
    let mut schema: Schema<Node> = nodes.into();
    schema = schema.with_resource(Counter(0));
    for (k, reg) in regs.as_array().expect("HARNESS: regs").iter().enumerate() {
        let (n, arity) = (k + 1, num(reg, "n"));
        schema = match text(reg, "s") {
            "BS" => register(schema, || BeforeSave, n, arity, &world),
            "AS" => register(schema, || AfterSave, n, arity, &world),
            "BD" => register(schema, || BeforeDelete, n, arity, &world),
            "AD" => register(schema, || AfterDelete, n, arity, &world),
            other => match own_schedule(other, Job::Register(schema, n, arity, &world)) {
                Ok(schema) => schema,
                Err(_) => unreachable!(),
            },
        };
    }
    let schema: *mut Schema<Node> = Box::into_raw(Box::new(schema));
    world.schema.set(schema);

    world.settle(&Who::Base, "");
    loop {
        match world.step(&mut Who::Base) {
            Flow::Go => {}
            _ => break,
        }
    }
    let out = world.out.take();
    drop(unsafe { Box::from_raw(schema) });
    out
}

type T = Target<Node>;
type Rc1 = Res<Counter>;
type Rm = Res<Missing>;

thread_local!(static TICKS: Cell<u32> = const { Cell::new(0) });

/// Registered right before every trigger of the scenario, always the same function: it has to run
/// right before each of them does.
fn tick(_: Ctx<Node>) -> Result<(), Error> {
    TICKS.set(TICKS.get() + 1);
    Ok(())
}

fn register<S: 'static>(schema: Schema<Node>, s: impl Fn() -> S + 'static, n: usize, arity: usize, world: &Rc<World>) -> Schema<Node> {
    let w = world.clone();
    somehow(n, schema, move |schema| register_here(schema, s, n, arity, w))
}

fn register_here<S: 'static>(schema: Schema<Node>, s: impl Fn() -> S, n: usize, arity: usize, w: Rc<World>) -> Schema<Node> {
    let schema = schema.with_trigger(s(), tick);
    let s = s();
    match arity {
        0 => schema.with_trigger(s, move |ctx: Ctx<Node>| w.trigger(n, &ctx, vec![], vec![], vec![], None)),
        1 => schema.with_trigger(s, move |ctx: Ctx<Node>, p: Probe| w.trigger(n, &ctx, vec![], vec![], vec![], Some(p))),
        2 => schema.with_trigger(s, move |ctx: Ctx<Node>, t: T, p: Probe| {
            w.trigger(n, &ctx, vec![t], vec![], vec![], Some(p))
        }),
        3 => schema.with_trigger(s, move |ctx: Ctx<Node>, r: Rc1, t: T, p: Probe| {
            w.trigger(n, &ctx, vec![t], vec![r], vec![], Some(p))
        }),
        4 => schema.with_trigger(s, move |ctx: Ctx<Node>, t: T, r: Rc1, m: Rm, p: Probe| {
            w.trigger(n, &ctx, vec![t], vec![r], vec![m], Some(p))
        }),
        5 => schema.with_trigger(s, move |ctx: Ctx<Node>, t: T, m: Rm, t2: T, p: Probe, r: Rc1| {
            w.trigger(n, &ctx, vec![t, t2], vec![r], vec![m], Some(p))
        }),
        6 => schema.with_trigger(s, move |ctx: Ctx<Node>, t: T, m: Rm, t2: T, p: Probe, r: Rc1, r2: Rc1| {
            w.trigger(n, &ctx, vec![t, t2], vec![r, r2], vec![m], Some(p))
        }),
        7 => schema.with_trigger(s, move |ctx: Ctx<Node>, p: Probe, t: T, m: Rm, t2: T, t3: T, r: Rc1, r2: Rc1| {
            w.trigger(n, &ctx, vec![t, t2, t3], vec![r, r2], vec![m], Some(p))
        }),
        _ => schema.with_trigger(s, move |ctx: Ctx<Node>, t: T, m: Rm, m2: Rm, t2: T, t3: T, r: Rc1, r2: Rc1, p: Probe| {
            w.trigger(n, &ctx, vec![t, t2, t3], vec![r, r2], vec![m, m2], Some(p))
        }),
    }
}

impl World {
    fn schema(&self) -> &Schema<Node> {
        unsafe { &*self.schema.get() }
    }

    // -----------------------------------------------------------------------------------------
    // observation

    fn observe(&self, who: &Who) -> Value {
        let ids = IDS.get();
        let counter = |res: &Res<Counter>| {
            let seen = res.with(|c| json!(c.0)).unwrap_or_else(|| json!("gone"));
            let missing: Res<Missing> = self.schema().resources().into();
            if missing.exists() {
                json!("a resource nobody registered exists")
            } else {
                seen
            }
        };
        match who {
            Who::Base => json!({
                "t": 0,
                "v": graph_value(&self.schema().read(), ids),
                "tg": [],
                "c": counter(&self.schema().resources().into()),
            }),
            Who::Tx(ctx) => {
                let ctx = ctx.as_ref().expect("HARNESS: context");
                let tg = tgt_value(ctx.target());
                let other = tgt_value(&Target::from(ctx));
                json!({
                    "t": 100,
                    "v": ctx_value(ctx, ids),
                    "tg": if tg == other { tg } else { json!(format!("target {tg} / {other}")) },
                    "c": counter(&ctx.into()),
                })
            }
            Who::Trig { n, ctx, target, res } => {
                let mut view = json!("the closure of a nested transaction did not run");
                let probed = ctx.transaction().with(|inner| {
                    view = ctx_value(&inner, ids);
                    Err::<(), _>(Error::custom("peek"))
                });
                if !matches!(probed, Err(Error::Msg(ref m)) if m == "peek") {
                    view = json!(format!("a failing nested transaction returned {probed:?}"));
                }
                json!({
                    "t": n,
                    "v": view,
                    "tg": target.as_ref().map(tgt_value).unwrap_or_else(|| json!([])),
                    "c": match res { Some(res) => counter(res), None => counter(&self.schema().resources().into()) },
                })
            }
        }
    }

    /// Records the pending step; user code `who` has control now.
    fn settle(&self, who: &Who, result: &str) {
        self.settle_as(who, result, None)
    }

    /// The same; the context itself showed `entry`.
    fn settle_as(&self, who: &Who, result: &str, entry: Option<Value>) {
        if self.over.get() {
            return;
        }
        let Some(mut step) = self.pending.borrow_mut().take() else {
            self.fail(json!({}), format!("control moved without a step, result {result:?}"));
            return;
        };
        if text(&step, "a") != "Init" {
            step["r"] = json!(result);
        }
        let observe = || {
            let mut x = self.observe(who);
            x["k"] = self.kept.borrow().as_ref().map(tgt_value).unwrap_or_else(|| json!([]));
            x
        };
        match catch_unwind(AssertUnwindSafe(observe)) {
            Ok(x) if entry.as_ref().is_some_and(|entry| *entry != x["v"]) => {
                let what = format!("the context shows {entry:?} but a transaction nested in it {}", x["v"]);
                self.fail(step, what)
            }
            Ok(x) => {
                step["x"] = x;
                self.out.borrow_mut().push(step);
            }
            Err(p) => self.fail(step, format!("reading panicked: {}", describe(&*p))),
        }
    }

    fn fail(&self, mut step: Value, what: String) {
        if !self.over.get() {
            step["unexpected"] = json!(what);
            self.out.borrow_mut().push(step);
            self.over.set(true);
        }
    }

    // -----------------------------------------------------------------------------------------
    // user code

    fn trigger(&self, n: usize, ctx: &Ctx<Node>, mut targets: Vec<T>, mut res: Vec<Rc1>, missing: Vec<Rm>, probe: Option<Probe>) -> Result<(), Error> {
        let ticks = TICKS.replace(0);
        if self.over.get() {
            return Err(stop());
        }
        if ticks != 1 {
            self.fail(json!({}), format!("the trigger before the {n}th one ran {ticks} times"));
            return Err(stop());
        }
        let mut entry = None;
        if let Some(probe) = probe {
            entry = Some(probe.view);
            targets.push(probe.target);
            res.push(probe.res);
            if probe.unset.exists() || missing.iter().any(|m| m.exists()) {
                self.fail(json!({}), "a resource nobody registered exists".into());
            }
        }
        let shown: Vec<Value> = targets.iter().map(tgt_value).collect();
        if shown.windows(2).any(|w| w[0] != w[1]) {
            self.fail(json!({}), format!("targets of one trigger differ: {shown:?}"));
        }
        self.depth.set(self.depth.get() + 1);
        let depth = self.depth.get();
        let mut who = Who::Trig { n, ctx, target: targets.pop(), res: res.pop() };
        self.settle_as(&who, "", entry);
        let flow = self.drive(&mut who);
        self.depth.set(depth - 1);
        self.finish(flow)
    }

    fn drive(&self, who: &mut Who) -> Flow {
        loop {
            match self.step(who) {
                Flow::Go => {}
                other => return other,
            }
        }
    }

    fn finish(&self, flow: Flow) -> Result<(), Error> {
        match flow {
            Flow::Ret(result) => result,
            Flow::Panic(n) => panic_any(Token(n)),
            Flow::Stop | Flow::Go => Err(stop()),
        }
    }

    fn body(&self, ctx: Context<'_, Node>) -> Result<u32, Error> {
        if self.over.get() {
            return Err(stop());
        }
        self.depth.set(self.depth.get() + 1);
        let depth = self.depth.get();
        let mut ctx = Some(ctx);
        self.settle(&Who::Tx(&mut ctx), "");
        let flow = self.drive(&mut Who::Tx(&mut ctx));
        self.depth.set(depth - 1);
        drop(ctx);
        self.finish(flow).map(|()| depth as u32 + 4000)
    }

    fn perform(&self, step: &Value, tx: impl Transaction<Target = Node>) -> Result<(), Error> {
        let id = || num(step, "id") as u32;
        match text(step, "a") {
            "Tx" => {
                let depth = self.depth.get() as u32 + 1;
                let value = tx.with(|ctx| self.body(ctx))?;
                if value != depth + 4000 {
                    return Err(Error::custom(format!("the closure returned {} but with {value}", depth + 4000)));
                }
                Ok(())
            }
            "Save" => {
                let node = node(id(), num(step, "v") as u32);
                if id() % 2 == 0 { Save::new(node).execute(tx) } else { Save { node }.execute(tx) }
            }
            "Del" => {
                if id() % 2 == 0 { Delete::new(id()).execute(tx) } else { Delete { node_id: id() }.execute(tx) }
            }
            other => panic!("HARNESS: perform {other}"),
        }
    }

    /// Performs the next step; the caller has control.
    fn step(&self, who: &mut Who) -> Flow {
        if self.over.get() {
            return Flow::Stop;
        }
        let Some(step) = self.choose(who) else {
            self.over.set(true);
            return Flow::Stop;
        };
        *self.pending.borrow_mut() = Some(step.clone());
        let action = text(&step, "a");
        match action {
            "Tx" | "Save" | "Del" | "Sel" => {
                let result = catch_unwind(AssertUnwindSafe(|| match who {
                    Who::Base => self.perform(&step, self.schema().transaction()),
                    Who::Tx(ctx) => {
                        let ctx = ctx.as_ref().expect("HARNESS: context");
                        if action == "Sel" {
                            let triggers = ctx.triggers();
                            match text(&step, "s") {
                                "BS" => triggers.select(BeforeSave).execute(ctx),
                                "AS" => triggers.select(AfterSave).execute(ctx),
                                "BD" => triggers.select(BeforeDelete).execute(ctx),
                                "AD" => triggers.select(AfterDelete).execute(ctx),
                                other => match own_schedule(other, Job::Select(ctx)) {
                                    Ok(_) => unreachable!(),
                                    Err(result) => result,
                                },
                            }
                        } else {
                            self.perform(&step, ctx.transaction())
                        }
                    }
                    Who::Trig { ctx, .. } => {
                        if action == "Sel" {
                            self.fail(step.clone(), "a trigger has control instead".into());
                            return Err(stop());
                        }
                        self.perform(&step, ctx.transaction())
                    }
                }));
                self.returned(&step, who, result)
            }
            "Ret" | "Burst" => {
                if matches!(who, Who::Base) {
                    self.fail(step, "nothing to return from".into());
                    return Flow::Stop;
                }
                let e = num(&step, "e");
                if action == "Burst" {
                    let Who::Trig { target, .. } = who else {
                        self.fail(step, "no trigger has control".into());
                        return Flow::Stop;
                    };
                    let burst = catch_unwind(AssertUnwindSafe(|| {
                        target.as_ref().and_then(|t| {
                            t.with_mut(|node| {
                                node.val += 1000;
                                panic_any(Token(e))
                            })
                        })
                    }));
                    return match burst {
                        Ok(_) => {
                            self.settle(who, "none");
                            Flow::Go
                        }
                        Err(_) if flag(&step, "caught") => {
                            self.settle(who, "caught");
                            Flow::Go
                        }
                        Err(p) => resume_unwind(p),
                    };
                }
                match text(&step, "how") {
                    "ok" => Flow::Ret(Ok(())),
                    "err" => Flow::Ret(Err(error(e))),
                    "noop" => Flow::Ret(Err(Error::Noop)),
                    _ => Flow::Panic(e),
                }
            }
            "CSave" | "CDel" | "WithTarget" => {
                let Who::Tx(slot) = who else {
                    self.fail(step, "no transaction closure has control".into());
                    return Flow::Stop;
                };
                let id = num(&step, "id") as u32;
                let ctx = slot.take().expect("HARNESS: context");
                let done = catch_unwind(AssertUnwindSafe(|| match action {
                    "CSave" => {
                        ctx.save(node(id, num(&step, "v") as u32));
                        ctx
                    }
                    "CDel" => {
                        ctx.delete(id);
                        ctx
                    }
                    _ => ctx.with_target(node(id, num(&step, "v") as u32)),
                }));
                match done {
                    Ok(ctx) => {
                        **slot = Some(ctx);
                        self.settle(who, "");
                        Flow::Go
                    }
                    Err(p) => {
                        self.fail(step, describe(&*p));
                        Flow::Stop
                    }
                }
            }
            "SetTgt" => {
                let (id, val) = (num(&step, "id") as u32, num(&step, "v") as u32);
                let change = |target: &Target<Node>| {
                    target.with_mut(|n| *n = node(id, val)).map(|_| "set").unwrap_or("none")
                };
                let r = match who {
                    Who::Tx(ctx) => change(ctx.as_ref().expect("HARNESS: context").target()),
                    Who::Trig { target: Some(target), .. } => change(target),
                    _ => "no target to ask for",
                };
                self.settle(who, r);
                Flow::Go
            }
            "Keep" => {
                *self.kept.borrow_mut() = match who {
                    Who::Tx(ctx) => Some(ctx.as_ref().expect("HARNESS: context").target().clone()),
                    Who::Trig { target, .. } => target.clone(),
                    Who::Base => None,
                };
                self.settle(who, "");
                Flow::Go
            }
            "SetKept" => {
                let kept = self.kept.borrow().clone();
                let (id, val) = (num(&step, "id") as u32, num(&step, "v") as u32);
                let done = kept.and_then(|target| target.with_mut(|n| *n = node(id, val)));
                self.settle(who, if done.is_some() { "set" } else { "none" });
                Flow::Go
            }
            "Bump" => {
                let res: Res<Counter> = match who {
                    Who::Tx(ctx) => ctx.as_ref().expect("HARNESS: context").into(),
                    _ => self.schema().resources().into(),
                };
                let bump = |res: &Res<Counter>| res.with_mut(|c| c.0 += 1).is_some();
                let done = match who {
                    Who::Trig { res: Some(res), .. } => bump(res),
                    _ => bump(&res),
                };
                self.settle(who, if done { "" } else { "gone" });
                Flow::Go
            }
            other => panic!("HARNESS: action {other}"),
        }
    }

    fn returned(&self, step: &Value, who: &mut Who, result: Result<Result<(), Error>, Box<dyn Any + Send>>) -> Flow {
        if self.over.get() {
            return Flow::Stop;
        }
        let policy = if matches!(who, Who::Base) { "all" } else { text(step, "c") };
        match result {
            Ok(Ok(())) => {
                self.settle(who, "ok");
                Flow::Go
            }
            Ok(Err(err)) if policy == "prop" => Flow::Ret(Err(err)),
            Ok(Err(err)) => {
                self.settle(who, &err_name(&err));
                Flow::Go
            }
            Err(p) => match p.downcast_ref::<Token>() {
                None => {
                    if describe(&*p).starts_with("HARNESS") {
                        panic!("{}", describe(&*p));
                    }
                    self.fail(step.clone(), describe(&*p));
                    Flow::Stop
                }
                Some(Token(n)) if policy == "all" => {
                    self.settle(who, &format!("panic:{n}"));
                    Flow::Go
                }
                Some(_) => resume_unwind(p),
            },
        }
    }

    // -----------------------------------------------------------------------------------------
    // choosing

    fn choose(&self, who: &Who) -> Option<Value> {
        let Some(gen) = &self.gen else {
            let k = self.next.get();
            self.next.set(k + 1);
            return self.steps.get(k).map(|step| {
                let mut step = step.clone();
                if let Some(map) = step.as_object_mut() {
                    map.remove("x");
                    map.remove("r");
                }
                step
            });
        };
        let k = self.out.borrow().len();
        if k >= gen.len.max(if gen.many.get() { 250 } else { 0 }) {
            return None;
        }
        let rng = &gen.rng;
        let base = matches!(who, Who::Base);
        let room = self.depth.get() < gen.depth;
        let deep = self.depth.get();
        let target = match who {
            Who::Tx(ctx) => ctx.as_ref().is_some_and(|ctx| ctx.target().with(|_| ()).is_some()),
            Who::Trig { target, .. } => target.as_ref().is_some_and(|t| t.with(|_| ()).is_some()),
            Who::Base => false,
        };
        let handle = matches!(who, Who::Tx(_)) || matches!(who, Who::Trig { target: Some(_), .. });
        let mut options: Vec<(usize, &str)> = vec![];
        if room {
            options.push((if base { 6 } else { 3 }, "Tx"));
            options.push((if base { 6 } else { 4 }, "Save"));
            options.push((if base { 6 } else { 4 }, "Del"));
        }
        options.push((1, "Bump"));
        if let Who::Tx(_) = who {
            options.extend([(3, "CSave"), (2, "CDel"), (2, "WithTarget")]);
            if room {
                options.push((4, "Sel"));
            }
        }
        if target {
            options.push((1, "Keep"));
        }
        if self.kept.borrow().is_some() {
            options.push((2, "SetKept"));
        }
        if handle {
            options.push((if target { 4 } else { 1 }, "SetTgt"));
        }
        if matches!(who, Who::Trig { .. }) && target {
            options.push((1, "Burst"));
        }
        if !base {
            let calm = gen.many.get() && matches!(who, Who::Trig { .. });
            options.push((if calm { 800 } else { 5 + 2 * deep }, "Ret"));
        }
        let a = *rng.weighted(&options);
        let id = 1 + rng.below(gen.ids);
        let fresh = || {
            gen.value.set(gen.value.get() + 1);
            gen.value.get()
        };
        let c = if base { "all" } else { *rng.pick(&["prop", "err", "all", "all"]) };
        Some(match a {
            "Tx" => json!({"a": a, "c": c}),
            "Save" => json!({"a": a, "id": id, "v": fresh(), "c": c}),
            "Del" => json!({"a": a, "id": id, "c": c}),
            "Sel" => json!({"a": a, "s": *rng.pick(&["BS", "AS", "BD", "AD", "X", "X", "Y", "Y"]), "c": c}),
            "CSave" | "WithTarget" => json!({"a": a, "id": id, "v": fresh()}),
            "SetTgt" | "SetKept" => json!({"a": a, "id": id, "v": fresh()}),
            "Keep" => json!({"a": a}),
            "CDel" => json!({"a": a, "id": id}),
            "Bump" => json!({"a": a}),
            "Burst" => json!({"a": a, "caught": rng.chance(60), "e": k}),
            _ => {
                let how = *rng.weighted(&[(if gen.many.get() { 600 } else { 12 }, "ok"), (3, "err"), (1, "noop"), (2, "panic")]);
                json!({"a": a, "how": how, "e": if how == "err" || how == "panic" { k } else { 0 }})
            }
        })
    }
}
