//! Driver of Resources.tla.

use crate::common::*;
use plotline::{
    deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut},
    graph::Graph,
    schema::{
        resource::{Res, ResReadGuard, ResWriteGuard},
        transaction::{Context, Target, TargetReadGuard, TargetWriteGuard},
        Schema,
    },
};
use serde_json::{json, Value};
use std::{
    cell::{Cell, RefCell},
    panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe},
};

/// Distinct types that print the same: each is declared in a block of its own.
trait Pick: 'static {
    type T: 'static;
    fn make(value: u32) -> Self::T;
}
struct Kind<const K: usize>;
macro_rules! pick {
    ($($k:literal)*) => {
        $(const _: () = {
            pub struct R(pub u32);
            impl Pick for Kind<$k> {
                type T = R;
                fn make(value: u32) -> R {
                    R(value)
                }
            }
        };)*
    };
}
pick!(1 2 3 4 5 6);
type R<const K: usize> = <Kind<K> as Pick>::T;

/// A handle of any type; reads and writes go through the handle's own guards.
enum H {
    A(Res<R<1>>),
    B(Res<R<2>>),
    C(Res<R<3>>),
    D(Res<R<4>>),
    E(Res<R<5>>),
    F(Res<R<6>>),
    T(Target<u32>),
}

enum RG<'a> {
    A(ResReadGuard<'a, R<1>>),
    B(ResReadGuard<'a, R<2>>),
    C(ResReadGuard<'a, R<3>>),
    D(ResReadGuard<'a, R<4>>),
    E(ResReadGuard<'a, R<5>>),
    F(ResReadGuard<'a, R<6>>),
    T(TargetReadGuard<'a, u32>),
}

enum WG<'a> {
    A(ResWriteGuard<'a, R<1>>),
    B(ResWriteGuard<'a, R<2>>),
    C(ResWriteGuard<'a, R<3>>),
    D(ResWriteGuard<'a, R<4>>),
    E(ResWriteGuard<'a, R<5>>),
    F(ResWriteGuard<'a, R<6>>),
    T(TargetWriteGuard<'a, u32>),
}

macro_rules! each {
    ($on:expr, $h:ident, $res:expr, $tgt:expr) => {
        match $on {
            Self::A($h) => $res,
            Self::B($h) => $res,
            Self::C($h) => $res,
            Self::D($h) => $res,
            Self::E($h) => $res,
            Self::F($h) => $res,
            Self::T($h) => {
                let _ = $h;
                $tgt
            }
        }
    };
}

impl TryDeref for RG<'_> {
    type Target = u32;
    fn try_deref(&self) -> Option<&u32> {
        each!(self, g, g.try_deref().map(|r| &r.0), g.try_deref())
    }
}
impl TryDeref for WG<'_> {
    type Target = u32;
    fn try_deref(&self) -> Option<&u32> {
        each!(self, g, g.try_deref().map(|r| &r.0), g.try_deref())
    }
}
impl TryDerefMut for WG<'_> {
    fn try_deref_mut(&mut self) -> Option<&mut u32> {
        each!(self, g, g.try_deref_mut().map(|r| &mut r.0), g.try_deref_mut())
    }
}
impl ReadOnly for H {
    type Target = u32;
    type Guard<'a> = RG<'a>;
    fn read(&self) -> RG<'_> {
        match self {
            H::A(h) => RG::A(h.read()),
            H::B(h) => RG::B(h.read()),
            H::C(h) => RG::C(h.read()),
            H::D(h) => RG::D(h.read()),
            H::E(h) => RG::E(h.read()),
            H::F(h) => RG::F(h.read()),
            H::T(h) => RG::T(h.read()),
        }
    }
}
impl ReadWrite for H {
    type Target = u32;
    type Guard<'a> = WG<'a>;
    fn write(&self) -> WG<'_> {
        match self {
            H::A(h) => WG::A(h.write()),
            H::B(h) => WG::B(h.write()),
            H::C(h) => WG::C(h.write()),
            H::D(h) => WG::D(h.write()),
            H::E(h) => WG::E(h.write()),
            H::F(h) => WG::F(h.write()),
            H::T(h) => WG::T(h.write()),
        }
    }
}

impl H {
    fn make(ty: usize, schema: &Schema<Node>, through_context: bool) -> H {
        macro_rules! res {
            () => {
                if through_context {
                    let tx = schema.transaction();
                    let ctx = Context::from(&tx);
                    (&ctx).into()
                } else {
                    schema.resources().into()
                }
            };
        }
        match ty {
            0 => H::T(Target::default()),
            1 => H::A(res!()),
            2 => H::B(res!()),
            3 => H::C(res!()),
            4 => H::D(res!()),
            5 => H::E(res!()),
            6 => H::F(res!()),
            _ => panic!("HARNESS: type {ty}"),
        }
    }
    fn ty(&self) -> usize {
        match self {
            H::T(_) => 0,
            H::A(_) => 1,
            H::B(_) => 2,
            H::C(_) => 3,
            H::D(_) => 4,
            H::E(_) => 5,
            H::F(_) => 6,
        }
    }
    fn value(&self) -> Value {
        let direct = each!(self, h, h.with(|r| r.0), h.with(|v| *v));
        let exists = each!(self, h, h.exists(), direct.is_some());
        if exists != direct.is_some() {
            return json!(format!("exists {exists} but reads {direct:?}"));
        }
        if self.read().try_deref().copied() != direct {
            return json!("guard and closure read different values");
        }
        json!(direct.unwrap_or(0))
    }
}

fn with_resource(schema: Schema<Node>, ty: usize, v: u32) -> Schema<Node> {
    match ty {
        1 => schema.with_resource(Kind::<1>::make(v)),
        2 => schema.with_resource(Kind::<2>::make(v)),
        3 => schema.with_resource(Kind::<3>::make(v)),
        4 => schema.with_resource(Kind::<4>::make(v)),
        5 => schema.with_resource(Kind::<5>::make(v)),
        6 => schema.with_resource(Kind::<6>::make(v)),
        _ => panic!("HARNESS: type {ty}"),
    }
}

#[derive(Clone, Copy)]
struct Unwind(usize);

enum Leave {
    Out,
    Panic(usize),
    Stop,
}

struct World<'s> {
    schema: RefCell<Option<Schema<Node>>>,
    hnd: RefCell<Vec<Option<*mut H>>>,
    steps: &'s [Value],
    gen: Option<(Rng, usize)>,
    next: Cell<usize>,
    out: RefCell<Vec<Value>>,
    over: Cell<bool>,
    /// bookkeeping of the running closures and, for generated scenarios, of which handles share
    scopes: RefCell<Vec<(bool, Vec<usize>, Vec<*mut u32>)>>,
    alias: RefCell<Vec<usize>>,
    regs: RefCell<Vec<usize>>,
    fresh: Cell<usize>,
    value: Cell<u32>,
    nr: usize,
    /// another thread in scoped access to a target
    other: RefCell<Option<std::thread::JoinHandle<bool>>>,
}

pub fn run(steps: &[Value]) -> Vec<Value> {
    let init = &steps[0];
    let (nr, nh) = (num(init, "nr"), num(init, "nh"));
    let gen = init.get("seed").map(|_| (Rng::new(num(init, "seed") as u64), num(init, "len")));
    let world = World {
        schema: RefCell::new(Some(Graph::default().into())),
        hnd: RefCell::new(vec![None; nh + 1]),
        steps,
        gen,
        next: Cell::new(1),
        out: Default::default(),
        over: Cell::new(false),
        scopes: Default::default(),
        alias: RefCell::new(vec![0; nh + 1]),
        regs: RefCell::new(vec![0; nr + 1]),
        fresh: Cell::new(0),
        value: Cell::new(0),
        nr,
        other: Default::default(),
    };
    if init.get("ready").and_then(Value::as_bool) == Some(true) {
        for ty in 1..=nr {
            world.simple(&json!({"a": "Reg", "ty": ty, "v": ty}));
        }
        for h in 1..=nh {
            world.simple(&json!({"a": "Get", "h": h, "ty": (h - 1) % nr + 1}));
        }
    }
    world.record(json!({"a": "Init", "nr": nr, "nh": nh}));
    world.level();
    let hnd = world.hnd.take();
    for h in hnd.into_iter().flatten() {
        drop(unsafe { Box::from_raw(h) });
    }
    world.out.take()
}

impl World<'_> {
    fn observe(&self) -> Value {
        let scopes = self.scopes.borrow();
        let quiet = !scopes.iter().any(|s| s.0);
        let seen: Vec<u32> = scopes.last().map(|s| s.2.iter().map(|p| unsafe { **p }).collect()).unwrap_or_default();
        if !quiet {
            return json!({"types": [], "hs": [], "s": seen});
        }
        let schema = self.schema.borrow();
        let schema = schema.as_ref().expect("HARNESS: schema");
        let types: Vec<Value> = (1..=self.nr)
            .map(|ty| {
                let direct = H::make(ty, schema, false).value();
                let through = H::make(ty, schema, true).value();
                if direct == through { direct } else { json!(format!("{direct} but {through} through a context")) }
            })
            .collect();
        let hs: Vec<Value> = self.hnd.borrow()[1..]
            .iter()
            .map(|h| h.map(|h| unsafe { &*h }.value()).unwrap_or_else(|| json!(-1)))
            .collect();
        json!({"types": types, "hs": hs, "s": seen})
    }

    fn record(&self, mut step: Value) {
        if self.over.get() {
            return;
        }
        if let Some(other) = self.other.take() {
            if !matches!(other.join(), Ok(true)) {
                step["unexpected"] = json!("scoped access from another thread failed");
            }
        }
        match catch_unwind(AssertUnwindSafe(|| self.observe())) {
            Ok(x) => step["x"] = x,
            Err(p) => {
                step["unexpected"] = json!(describe(&*p));
                self.over.set(true);
            }
        }
        self.out.borrow_mut().push(step);
    }

    fn fail(&self, mut step: Value, what: String) {
        if !self.over.get() {
            step["unexpected"] = json!(what);
            self.out.borrow_mut().push(step);
            self.over.set(true);
        }
    }

    fn h(&self, k: usize) -> &'static H {
        unsafe { &*self.hnd.borrow()[k].expect("HARNESS: handle") }
    }

    fn level(&self) -> Leave {
        loop {
            if self.over.get() {
                return Leave::Stop;
            }
            let Some(step) = self.choose() else {
                self.over.set(true);
                return Leave::Stop;
            };
            match text(&step, "a") {
                "Leave" | "Panic" if self.scopes.borrow().is_empty() => {
                    self.fail(step, "no closure is running".into());
                    return Leave::Stop;
                }
                "Leave" => return Leave::Out,
                "Panic" => {
                    let n = num(&step, "n");
                    *self.pending() = Some(step);
                    return Leave::Panic(n);
                }
                "Enter" | "Contend" => {
                    if let Some(leave) = self.enter(step) {
                        return leave;
                    }
                }
                _ => {
                    let result = catch_unwind(AssertUnwindSafe(|| self.simple(&step)));
                    match result {
                        Ok(()) => self.record(step),
                        Err(p) => self.fail(step, describe(&*p)),
                    }
                }
            }
        }
    }

    fn pending(&self) -> std::cell::RefMut<'static, Option<Value>> {
        thread_local!(static PENDING: &'static RefCell<Option<Value>> = Box::leak(Box::default()));
        PENDING.with(|p| p.borrow_mut())
    }

    fn simple(&self, step: &Value) {
        match text(step, "a") {
            "Reg" => {
                let (ty, v) = (num(step, "ty"), num(step, "v") as u32);
                let schema = self.schema.take().expect("HARNESS: schema");
                *self.schema.borrow_mut() = Some(somehow(v as usize, schema, move |schema| with_resource(schema, ty, v)));
                self.regs.borrow_mut()[ty] = self.new_cell();
            }
            "Get" => {
                let (h, ty) = (num(step, "h"), num(step, "ty"));
                let made = {
                    let schema = self.schema.borrow();
                    H::make(ty, schema.as_ref().expect("HARNESS: schema"), h % 2 == 0)
                };
                self.hnd.borrow_mut()[h] = Some(Box::into_raw(Box::new(made)));
                self.alias.borrow_mut()[h] = if ty == 0 { 0 } else { self.regs.borrow()[ty] };
            }
            "SetT" => {
                let h = num(step, "h");
                match unsafe { &mut *self.hnd.borrow()[h].expect("HARNESS: handle") } {
                    H::T(t) => t.set(num(step, "v") as u32),
                    _ => panic!("HARNESS: not a target"),
                }
                self.alias.borrow_mut()[h] = self.new_cell();
            }
            "Clone" => {
                let (h, g) = (num(step, "h"), num(step, "g"));
                let H::T(t) = self.h(h) else { panic!("HARNESS: not a target") };
                self.hnd.borrow_mut()[g] = Some(Box::into_raw(Box::new(H::T(t.clone()))));
                let cell = self.alias.borrow()[h];
                self.alias.borrow_mut()[g] = cell;
            }
            "Drop" => {
                let h = num(step, "h");
                let gone = self.hnd.borrow_mut()[h].take().expect("HARNESS: handle");
                drop(unsafe { Box::from_raw(gone) });
            }
            "Put" => {
                let i = num(step, "i");
                let scopes = self.scopes.borrow();
                match scopes.last().and_then(|s| if s.0 { s.2.get(i - 1) } else { None }) {
                    Some(p) => unsafe { **p = num(step, "v") as u32 },
                    None => panic!("nothing to write to"),
                }
            }
            other => panic!("HARNESS: action {other}"),
        }
    }

    fn new_cell(&self) -> usize {
        self.fresh.set(self.fresh.get() + 1);
        self.fresh.get()
    }

    /// Some(..) if the caller has to be left, too.
    fn enter(&self, step: Value) -> Option<Leave> {
        let w = flag(&step, "w");
        let ks: Vec<usize> = nums(&step["hs"]).iter().map(|k| *k as usize).collect();
        let depth = self.scopes.borrow().len();
        let mut runs = 0;
        if text(&step, "a") == "Contend" {
            let H::T(target) = self.h(ks[num(&step, "k") - 1]) else { panic!("HARNESS: not a target") };
            let (target, v) = (target.clone(), num(&step, "v") as u32);
            let (tx, rx) = std::sync::mpsc::channel();
            *self.other.borrow_mut() = Some(std::thread::spawn(move || {
                let busy = || {
                    tx.send(()).ok();
                    std::thread::sleep(std::time::Duration::from_millis(2));
                };
                if v == 0 {
                    target.with(|_| busy()).is_some()
                } else {
                    target
                        .with_mut(|value| {
                            busy();
                            *value = v;
                        })
                        .is_some()
                }
            }));
            rx.recv().ok();
        }
        let result = catch_unwind(AssertUnwindSafe(|| {
            self.access(w, &ks, |values| {
                runs += 1;
                self.scopes.borrow_mut().push((w, ks.clone(), values));
                let mut step = step.clone();
                step["r"] = json!("in");
                self.record(step);
                let leave = self.level();
                match leave {
                    Leave::Panic(n) => panic_any(Unwind(n)),
                    Leave::Stop => usize::MAX,
                    Leave::Out => {
                        self.scopes.borrow_mut().pop();
                        depth + 70
                    }
                }
            })
        }));
        if self.over.get() {
            return Some(Leave::Stop);
        }
        self.scopes.borrow_mut().truncate(depth);
        match result {
            Ok(None) if runs == 0 => {
                let mut step = step;
                step["r"] = json!("none");
                self.record(step);
                None
            }
            Ok(Some(token)) if runs == 1 && token == depth + 70 => {
                self.record(json!({"a": "Leave", "r": "out"}));
                None
            }
            Ok(other) => {
                self.fail(step, format!("the closure ran {runs} times, the call returned {other:?}"));
                Some(Leave::Stop)
            }
            Err(p) => match p.downcast_ref::<Unwind>().copied() {
                Some(Unwind(1)) => {
                    let mut step = self.pending().take().expect("HARNESS: pending");
                    step["r"] = json!("panic");
                    self.record(step);
                    None
                }
                Some(Unwind(n)) => resume_unwind(Box::new(Unwind(n - 1))),
                None => {
                    if describe(&*p).starts_with("HARNESS") {
                        panic!("{}", describe(&*p));
                    }
                    self.fail(step, describe(&*p));
                    Some(Leave::Stop)
                }
            },
        }
    }

    /// `with` / `with_mut` on a tuple of handles, directly on their types where that is feasible.
    fn access(&self, w: bool, ks: &[usize], f: impl FnOnce(Vec<*mut u32>) -> usize) -> Option<usize> {
        let hs: Vec<&'static H> = ks.iter().map(|k| self.h(*k)).collect();
        fn c(v: &u32) -> *mut u32 {
            v as *const u32 as *mut u32
        }
        macro_rules! single {
            ($h:expr, $field:tt) => {
                if w { $h.with_mut(|r| f(vec![&mut r.$field])) } else { $h.with(|r| f(vec![c(&r.$field)])) }
            };
        }
        macro_rules! tuple {
            ($($v:ident $h:expr),*) => {
                if w {
                    ($($h,)*).with_mut(|($($v,)*)| f(vec![$(&mut $v.0),*]))
                } else {
                    ($($h,)*).with(|($($v,)*)| f(vec![$(c(&$v.0)),*]))
                }
            };
        }
        macro_rules! wrapped {
            ($($v:ident $i:tt),*) => {
                if w {
                    ($(Ref(hs[$i]),)*).with_mut(|($($v,)*)| f(vec![$($v as *mut u32),*]))
                } else {
                    ($(Ref(hs[$i]),)*).with(|($($v,)*)| f(vec![$(c($v)),*]))
                }
            };
        }
        match hs.as_slice() {
            [H::A(a)] => single!(a, 0),
            [H::B(a)] => single!(a, 0),
            [H::C(a)] => single!(a, 0),
            [H::D(a)] => single!(a, 0),
            [H::E(a)] => single!(a, 0),
            [H::F(a)] => single!(a, 0),
            [H::T(a)] => if w { a.with_mut(|v| f(vec![v])) } else { a.with(|v| f(vec![c(v)])) },
            [H::A(a), H::B(b)] => tuple!(p Own::<1>(a), q Own::<2>(b)),
            [H::B(a), H::A(b)] => tuple!(p Own::<2>(a), q Own::<1>(b)),
            [H::A(a), H::B(b), H::C(d)] => tuple!(p Own::<1>(a), q Own::<2>(b), r Own::<3>(d)),
            [H::C(a), H::A(b), H::B(d)] => tuple!(p Own::<3>(a), q Own::<1>(b), r Own::<2>(d)),
            [H::A(a), H::B(b), H::C(d), H::D(e)] => tuple!(p Own::<1>(a), q Own::<2>(b), r Own::<3>(d), s Own::<4>(e)),
            [H::A(a), H::B(b), H::C(d), H::D(e), H::E(g)] => {
                tuple!(p Own::<1>(a), q Own::<2>(b), r Own::<3>(d), s Own::<4>(e), t Own::<5>(g))
            }
            [H::A(a), H::B(b), H::C(d), H::D(e), H::E(g), H::F(i)] => {
                tuple!(p Own::<1>(a), q Own::<2>(b), r Own::<3>(d), s Own::<4>(e), t Own::<5>(g), u Own::<6>(i))
            }
            [_, _] => wrapped!(p 0, q 1),
            [_, _, _] => wrapped!(p 0, q 1, r 2),
            [_, _, _, _] => wrapped!(p 0, q 1, r 2, s 3),
            [_, _, _, _, _] => wrapped!(p 0, q 1, r 2, s 3, t 4),
            [_, _, _, _, _, _] => wrapped!(p 0, q 1, r 2, s 3, t 4, u 5),
            _ => panic!("HARNESS: arity"),
        }
    }

    fn choose(&self) -> Option<Value> {
        let Some((rng, len)) = &self.gen else {
            let k = self.next.get();
            self.next.set(k + 1);
            return self.steps.get(k).map(|step| {
                let mut step = step.clone();
                let map = step.as_object_mut().expect("HARNESS: step");
                map.remove("x");
                map.remove("r");
                step
            });
        };
        if self.out.borrow().len() >= *len {
            return None;
        }
        let hnd = self.hnd.borrow();
        let live: Vec<usize> = (1..hnd.len()).filter(|k| hnd[*k].is_some()).collect();
        let free: Vec<usize> = (1..hnd.len()).filter(|k| hnd[*k].is_none()).collect();
        let targets: Vec<usize> =
            live.iter().copied().filter(|k| unsafe { &*hnd[*k].expect("handle") }.ty() == 0).collect();
        drop(hnd);
        let scopes = self.scopes.borrow();
        let borrowed: Vec<usize> = scopes.iter().flat_map(|s| s.1.clone()).collect();
        let idle: Vec<usize> = live.iter().copied().filter(|k| !borrowed.contains(k)).collect();
        let idle_targets: Vec<usize> = targets.iter().copied().filter(|k| !borrowed.contains(k)).collect();
        let depth = scopes.len();
        let mut options = vec![];
        let room = self.fresh.get() < 38;
        if room {
            options.push((3, "Reg"));
        }
        if !free.is_empty() {
            options.push((6, "Get"));
            if !targets.is_empty() {
                options.push((1, "Clone"));
            }
        }
        if room && !idle_targets.is_empty() {
            options.push((2, "SetT"));
        }
        if !idle.is_empty() {
            options.push((1, "Drop"));
        }
        if !live.is_empty() && depth < 4 {
            options.push((9, "Enter"));
        }
        if scopes.last().is_some_and(|s| s.0) {
            options.push((8, "Put"));
        }
        if depth > 0 {
            options.push((6, "Leave"));
            options.push((1, "Panic"));
        }
        let fresh = || {
            self.value.set(self.value.get() + 1);
            self.value.get()
        };
        let a = *rng.weighted(&options);
        Some(match a {
            "Reg" => json!({"a": a, "ty": 1 + rng.below(self.nr), "v": fresh()}),
            "Get" => json!({"a": a, "h": *rng.pick(&free), "ty": rng.below(self.nr + 1)}),
            "Clone" => json!({"a": a, "h": *rng.pick(&targets), "g": *rng.pick(&free)}),
            "SetT" => json!({"a": a, "h": *rng.pick(&idle_targets), "v": fresh()}),
            "Drop" => json!({"a": a, "h": *rng.pick(&idle)}),
            "Put" => json!({"a": a, "i": 1 + rng.below(scopes.last().expect("scope").1.len()), "v": fresh()}),
            "Leave" => json!({"a": a}),
            "Panic" => json!({"a": a, "n": 1 + rng.below(depth)}),
            _ => {
                let alias = self.alias.borrow();
                let locked = |w: bool| -> Vec<usize> {
                    scopes.iter().filter(|s| s.0 == w).flat_map(|s| s.1.iter().map(|k| alias[*k])).collect()
                };
                let (written, read) = (locked(true), locked(false));
                let w = rng.chance(50);
                let mut pool = live.clone();
                let mut hs: Vec<usize> = vec![];
                let arity = 1 + rng.below(6);
                let mut cells: Vec<usize> = vec![];
                while hs.len() < arity && !pool.is_empty() {
                    let k = *rng.pick(&pool);
                    let cell = alias[k];
                    let conflict = cell != 0
                        && (written.contains(&cell) || w && (read.contains(&cell) || cells.contains(&cell)));
                    if conflict || rng.chance(30) {
                        pool.retain(|p| *p != k);
                    }
                    if !conflict {
                        hs.push(k);
                        cells.push(cell);
                    }
                }
                if hs.is_empty() {
                    return Some(match depth {
                        0 => json!({"a": "Reg", "ty": 1, "v": fresh()}),
                        _ => json!({"a": "Leave"}),
                    });
                }
                let sorted = rng.chance(40);
                if depth == 0 && rng.chance(8) {
                    let known = |k: &usize| targets.contains(&hs[*k]) && self.h(hs[*k]).read().try_deref().is_some();
                    if let Some(k) = (0..hs.len()).find(known) {
                        let v = if w && rng.chance(50) { 0 } else { fresh() };
                        return Some(json!({"a": "Contend", "w": w, "hs": hs, "k": k + 1, "v": v}));
                    }
                }
                if sorted {
                    let hnd = self.hnd.borrow();
                    hs.sort_by_key(|k| unsafe { &*hnd[*k].expect("handle") }.ty());
                }
                json!({"a": "Enter", "w": w, "hs": hs})
            }
        })
    }
}

/// Borrowed handles in tuples.
struct Own<const K: usize>(&'static Res<R<K>>)
where
    Kind<K>: Pick;
impl<const K: usize> ReadOnly for Own<K>
where
    Kind<K>: Pick,
{
    type Target = R<K>;
    type Guard<'a> = ResReadGuard<'a, R<K>>;
    fn read(&self) -> Self::Guard<'_> {
        self.0.read()
    }
}
impl<const K: usize> ReadWrite for Own<K>
where
    Kind<K>: Pick,
{
    type Target = R<K>;
    type Guard<'a> = ResWriteGuard<'a, R<K>>;
    fn write(&self) -> Self::Guard<'_> {
        self.0.write()
    }
}
struct Ref(&'static H);
impl ReadOnly for Ref {
    type Target = u32;
    type Guard<'a> = RG<'a>;
    fn read(&self) -> RG<'_> {
        self.0.read()
    }
}
impl ReadWrite for Ref {
    type Target = u32;
    type Guard<'a> = WG<'a>;
    fn write(&self) -> WG<'_> {
        self.0.write()
    }
}
