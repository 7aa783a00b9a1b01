//! Driver of IntervalIndex.tla.

use crate::common::{describe, flag, num, nums, text};
use plotline::{
    graph::{Graph, Source},
    prelude::*,
    property::Extractor,
    schema::{
        ops::{delete::Delete, save::Save},
        transaction::Context,
    },
};
use plotline_plugin_interval::{verif, Interval};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    panic::{catch_unwind, AssertUnwindSafe},
};

#[derive(Debug, Clone, PartialEq)]
struct Node {
    id: u32,
    val: u32,
    spans: Vec<Span>,
}

impl Identify for Node {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.id
    }
}

#[derive(Debug, Clone, PartialEq)]
struct Span(i32, i32);
impl Interval for Span {
    type Bound = i32;
    fn lo(&self) -> i32 {
        self.0
    }
    fn hi(&self) -> i32 {
        self.1
    }
}

struct Spans;
impl Extractor<Node> for Spans {
    type Target = Span;
    fn all(&self, source: &Node) -> Vec<Span> {
        source.spans.clone()
    }
}

/// The same intervals for another plugin.
#[derive(Debug, Clone, PartialEq)]
struct Twin(i32, i32);
impl Interval for Twin {
    type Bound = i32;
    fn lo(&self) -> i32 {
        self.0
    }
    fn hi(&self) -> i32 {
        self.1
    }
}

struct Twins;
impl Extractor<Node> for Twins {
    type Target = Twin;
    fn all(&self, source: &Node) -> Vec<Twin> {
        source.spans.iter().map(|span| Twin(span.0, span.1)).collect()
    }
}

/// What the triggers need to know; a resource of the schema.
struct World {
    ni: u32,
    nv: u32,
    arm: String,
    ivs: Vec<Vec<Span>>,
}

impl World {
    fn node(&self, id: u32, val: u32) -> Node {
        Node { id, val, spans: self.ivs[val as usize - 1].clone() }
    }
    fn next(&self, id: u32) -> u32 {
        id % self.ni + 1
    }
}

type R = plotline::schema::Result<()>;

fn boom() -> R {
    Err(Error::custom("boom"))
}
fn armed(world: &Res<World>, what: &str) -> bool {
    world.with(|w| w.arm == what).expect("HARNESS: world")
}
fn fail(world: &Res<World>, what: &str) -> R {
    if armed(world, what) { boom() } else { Ok(()) }
}
fn alter(_: Ctx<Node>, target: Target<Node>, world: Res<World>) -> R {
    world
        .with(|w| target.with_mut(|node| *node = w.node(node.id, node.val % w.nv + 1)))
        .flatten()
        .expect("HARNESS: target");
    Ok(())
}
fn rename(_: Ctx<Node>, target: Target<Node>, world: Res<World>) -> R {
    world.with(|w| target.with_mut(|node| node.id = w.next(node.id))).flatten().expect("HARNESS: target");
    Ok(())
}
fn neighbour(target: &Target<Node>, world: &Res<World>) -> Node {
    (world.with(|w| target.with(|node| w.node(w.next(node.id), node.val)))).flatten().expect("HARNESS: target")
}
fn exists(ctx: &Ctx<Node>, id: u32) -> bool {
    ctx.transaction().with(|ctx| Ok(ctx.contains(&id))).expect("HARNESS: lookup")
}
fn follow(ctx: Ctx<Node>, target: Target<Node>, world: Res<World>) -> R {
    let node = neighbour(&target, &world);
    if exists(&ctx, node.id) {
        return Ok(());
    }
    Save::new(node).execute(ctx.transaction())
}
fn cascade(ctx: Ctx<Node>, target: Target<Node>, world: Res<World>) -> R {
    let id = neighbour(&target, &world).id;
    if !exists(&ctx, id) {
        return Ok(());
    }
    Delete::<Node>::new(id).execute(ctx.transaction())
}
fn hide(ctx: Ctx<Node>, target: Target<Node>, world: Res<World>) -> R {
    if !armed(&world, "hide") {
        return Ok(());
    }
    world.with_mut(|w| w.arm.clear());
    let node = neighbour(&target, &world);
    let _ = ctx.transaction().with(|ctx| {
        Save::new(node).execute(ctx.transaction())?;
        boom()
    });
    world.with_mut(|w| w.arm = "hide".into());
    Ok(())
}

fn schema(init: &Value) -> Schema<Node> {
    let spans = |v: &Value| -> Vec<Span> {
        let list = v.as_array().expect("HARNESS: intervals");
        list.iter().map(nums).map(|s| Span(s[0] as i32, s[1] as i32)).collect()
    };
    let world = World {
        ni: num(init, "ni") as u32,
        nv: num(init, "nv") as u32,
        arm: String::new(),
        ivs: init["ivs"].as_array().expect("HARNESS: ivs").iter().map(spans).collect(),
    };
    let nodes = nums(&init["g"]);
    let graph: Graph<Node> = (nodes.iter().zip(1..))
        .filter(|(val, _)| **val > 0)
        .map(|(val, id)| world.node(id, *val))
        .collect();
    let mut schema = Schema::from(graph).with_resource(world);
    for reg in init["regs"].as_array().expect("HARNESS: regs") {
        schema = match reg.as_str().expect("HARNESS: trigger") {
            // two of them, which do not interfere
            "P" => (schema.install(verif::plugin::<Node, Spans>(Spans)))
                .install(verif::plugin::<Node, Twins>(Twins)),
            "alter" => schema.with_trigger(BeforeSave, alter),
            "rename" => schema.with_trigger(BeforeSave, rename),
            "lateval" => schema.with_trigger(AfterSave, alter),
            "lateid" => schema.with_trigger(AfterSave, rename),
            "delval" => schema.with_trigger(BeforeDelete, alter),
            "delid" => schema.with_trigger(BeforeDelete, rename),
            "fBS" => schema.with_trigger(BeforeSave, |_: Ctx<Node>, w: Res<World>| fail(&w, "fBS")),
            "fAS" => schema.with_trigger(AfterSave, |_: Ctx<Node>, w: Res<World>| fail(&w, "fAS")),
            "fBD" => schema.with_trigger(BeforeDelete, |_: Ctx<Node>, w: Res<World>| fail(&w, "fBD")),
            "fAD" => schema.with_trigger(AfterDelete, |_: Ctx<Node>, w: Res<World>| fail(&w, "fAD")),
            "follow" => schema.with_trigger(AfterSave, follow),
            "cascade" => schema.with_trigger(AfterDelete, cascade),
            "hide" => schema.with_trigger(AfterSave, hide),
            other => panic!("HARNESS: trigger {other}"),
        };
    }
    schema
}

struct Run<'a> {
    steps: &'a [Value],
    at: RefCell<usize>,
    out: RefCell<Vec<Value>>,
    schema: Schema<Node>,
}

impl Run<'_> {
    fn take(&self) -> Option<&Value> {
        let mut at = self.at.borrow_mut();
        *at += 1;
        self.steps.get(*at - 1)
    }

    fn observe(&self, step: &Value, r: Option<bool>, view: &dyn Fn(u32) -> Option<Node>) {
        let mut entry = step.clone();
        let map = entry.as_object_mut().expect("HARNESS: step");
        map.remove("x");
        map.remove("r");
        let init = &self.steps[0];
        let (ni, nb) = (num(init, "ni") as u32, num(init, "nb") as i32);
        let query = |lo: i32, hi: i32| {
            let mut found = vec![];
            let any = verif::query(&self.schema, 1, Span(lo, hi), |id, span: &Span| {
                found.push(json!([id, span.0, span.1]))
            });
            found.sort_by_key(nums);
            let mut twins = vec![];
            let any_twin = verif::query(&self.schema, 1, Twin(lo, hi), |id, twin: &Twin| {
                twins.push(json!([id, twin.0, twin.1]))
            });
            twins.sort_by_key(nums);
            if twins != found || any_twin != any {
                return json!([format!("{found:?} {any:?}, but {twins:?} {any_twin:?} by the other plugin")]);
            }
            match any {
                Some(any) if any != found.is_empty() => json!(found),
                other => json!([format!("{found:?} but {other:?}")]),
            }
        };
        let full = query(i32::MIN, i32::MAX);
        let mut n = vec![];
        for lo in 0..=nb + 1 {
            if nb > 12 {
                break; // recorded executions
            }
            for hi in lo..=nb + 1 {
                let found = query(lo, hi);
                let mut ids: Vec<Value> = found.as_array().map(|f| f.iter().map(|e| e[0].clone()).collect()).unwrap_or_default();
                ids.dedup();
                n.push(json!(ids));
            }
        }
        let v: Vec<u32> = (1..=ni).map(|id| view(id).map(|node| node.val).unwrap_or(0)).collect();
        entry["x"] = json!({"v": v, "i": full, "n": n});
        if let Some(r) = r {
            entry["r"] = json!(r);
        }
        self.out.borrow_mut().push(entry);
    }

    fn op(&self, step: &Value, tx: impl Transaction<Target = Node>) -> bool {
        let world = Res::<World>::from(self.schema.resources());
        let id = num(step, "id") as u32;
        world.with_mut(|w| w.arm = text(step, "arm").into());
        let result = match text(step, "a") {
            "Save" => {
                let node = world.with(|w| w.node(id, num(step, "v") as u32)).expect("HARNESS: world");
                Save::new(node).execute(tx)
            }
            _ => Delete::<Node>::new(id).execute(tx),
        };
        world.with_mut(|w| w.arm.clear());
        result.is_ok()
    }

    /// Performs steps until the end of the transaction `ctx` belongs to; returns how it ends.
    fn inside(&self, ctx: &Context<'_, Node>) -> R {
        while let Some(step) = self.take() {
            match text(step, "a") {
                "Begin" => self.begin(step, ctx.transaction(), &|id| ctx.get(&id)),
                "End" => {
                    *self.at.borrow_mut() -= 1; // observed where it leads
                    return if flag(step, "ok") { Ok(()) } else { boom() };
                }
                _ => {
                    let r = self.op(step, ctx.transaction());
                    self.observe(step, Some(r), &|id| ctx.get(&id));
                }
            }
        }
        boom()
    }

    fn begin(&self, step: &Value, tx: impl Transaction<Target = Node>, outer: &dyn Fn(u32) -> Option<Node>) {
        let _ = tx.with(|ctx| {
            self.observe(step, None, &|id| ctx.get(&id));
            self.inside(&ctx)
        });
        if let Some(end) = self.take() {
            self.observe(end, None, outer);
        }
    }

    fn base(&self) {
        let read = |id: u32| self.schema.read().get(&id);
        let init = self.take().expect("HARNESS: init");
        self.observe(init, None, &read);
        while let Some(step) = self.take() {
            match text(step, "a") {
                "Begin" => self.begin(step, self.schema.transaction(), &read),
                _ => {
                    let r = self.op(step, self.schema.transaction());
                    self.observe(step, Some(r), &read);
                }
            }
        }
    }
}

pub fn run(steps: &[Value]) -> Vec<Value> {
    let schema = match catch_unwind(AssertUnwindSafe(|| schema(&steps[0]))) {
        Ok(schema) => schema,
        Err(p) => return vec![json!({"a": "Init", "unexpected": describe(&*p)})],
    };
    let run = Run { steps, at: RefCell::new(0), out: RefCell::default(), schema };
    if let Err(p) = catch_unwind(AssertUnwindSafe(|| run.base())) {
        let at = run.out.borrow().len();
        let mut step = steps[at.min(steps.len() - 1)].clone();
        step["unexpected"] = json!(describe(&*p));
        run.out.borrow_mut().push(step);
    }
    run.out.into_inner()
}
