//! Driver of LazyDocuments.tla: the threads of a scenario are real threads whose calls of the
//! repository are held until the scenario answers them.

use crate::common::*;
use plotline::{
    deref::TryDeref,
    document::{lazy::LazyDocument, DocumentRepository},
    id::Identify,
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    panic::{catch_unwind, panic_any, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU32, Ordering},
        mpsc::{channel, Receiver, Sender},
        Arc, Barrier, Mutex,
    },
    time::Duration,
};

/// A document found by an id that need not be its own.
#[derive(Debug, Clone, PartialEq)]
struct Doc {
    id: u32,
    own: u32,
    version: u32,
}

impl Identify for Doc {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.own
    }
}

type Lazy = LazyDocument<Repo>;

enum Cmd {
    Resolve(Arc<Lazy>),
    Answer(u32),
    Panic,
}

enum Event {
    Entered(u32),
    Returned(Result<i64, String>),
    /// The repository's own panic reached the caller.
    Panicked,
}

struct Worker {
    cmds: Receiver<Cmd>,
    events: Sender<Event>,
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
    static RACING: RefCell<Option<Arc<AtomicU32>>> = const { RefCell::new(None) };
}

#[derive(Default)]
struct Repo {
    /// Calls from where none is expected.
    stray: Arc<Mutex<Vec<String>>>,
}

impl DocumentRepository for Repo {
    type Document = Doc;

    fn find_by_id(&self, id: &u32) -> Option<Doc> {
        if let Some(counter) = RACING.with(|r| r.borrow().clone()) {
            let version = counter.fetch_add(1, Ordering::SeqCst) + 1;
            // lets the others reach the same point
            std::thread::yield_now();
            return Some(Doc { id: *id, own: *id + 1000, version });
        }
        let working = WORKER.with(|w| {
            w.borrow().as_ref().map(|w| w.events.send(Event::Entered(*id)).expect("HARNESS: events"))
        });
        if working.is_none() {
            self.stray.lock().expect("HARNESS: stray").push(format!("the repository was asked for {id}"));
            return None;
        }
        match serve() {
            Some(PANIC) => panic_any(Planned::One),
            Some(version) if version > 0 => Some(Doc { id: *id, own: *id + 1000, version }),
            _ => None,
        }
    }
}

fn shown(lazy: &Lazy) -> Result<i64, String> {
    match lazy.try_deref() {
        None => Ok(0),
        Some(doc) if doc.id == *lazy.id() => Ok(doc.version as i64),
        Some(doc) => Err(format!("{doc:?} resolved for {}", lazy.id())),
    }
}

/// Performs commands on a worker until an answer to the pending call arrives.
fn serve() -> Option<u32> {
    loop {
        let cmd = WORKER.with(|w| w.borrow().as_ref().expect("HARNESS: worker").cmds.recv());
        match cmd {
            Ok(Cmd::Resolve(lazy)) => {
                let result = match catch_unwind(AssertUnwindSafe(|| shown(&lazy))) {
                    Ok(result) => Event::Returned(result),
                    Err(p) if planned(&*p).is_some() => Event::Panicked,
                    Err(p) => Event::Returned(Err(format!("panicked: {}", describe(&*p)))),
                };
                drop(lazy);
                WORKER.with(|w| {
                    w.borrow().as_ref().expect("HARNESS: worker").events.send(result).ok()
                });
            }
            Ok(Cmd::Answer(v)) => return Some(v),
            Ok(Cmd::Panic) => return Some(PANIC),
            Err(_) => return None,
        }
    }
}

struct Thread {
    cmds: Sender<Cmd>,
    events: Receiver<Event>,
    pending: Vec<usize>,
}

/// The answer that is a panic.
const PANIC: u32 = u32::MAX;

/// How long a call may take to reach the repository while another one is pending. Calls that do not
/// are taken to wait for the other one; once that is known to happen, waiting long is pointless.
fn patience() -> Duration {
    Duration::from_millis(if BLOCKED.load(Ordering::SeqCst) < 5 { 400 } else { 15 })
}
static BLOCKED: AtomicU32 = AtomicU32::new(0);

pub fn run(steps: &[Value]) -> Vec<Value> {
    let (nh, nt) = (num(&steps[0], "nh"), num(&steps[0], "nt"));
    let stray: Arc<Mutex<Vec<String>>> = Default::default();
    let repo = Arc::new(Repo { stray: stray.clone() });
    let builder = Lazy::builder(repo.clone());
    // a repository nobody else has a handle of
    let alone = || Arc::new(Repo { stray: stray.clone() });
    let mut slots: Vec<Option<Arc<Lazy>>> = vec![None; nh + 1];
    // whether some resolution is known to have succeeded
    let mut loaded = vec![false; nh + 1];
    let mut threads: Vec<Thread> = (0..nt)
        .map(|_| {
            let (cmds, inbox) = channel();
            let (outbox, events) = channel();
            std::thread::spawn(move || {
                WORKER.with(|w| *w.borrow_mut() = Some(Worker { cmds: inbox, events: outbox }));
                serve();
            });
            Thread { cmds, events, pending: vec![] }
        })
        .collect();
    let mut out: Vec<Value> = vec![];

    for step in steps {
        let mut entry = step.clone();
        {
            let map = entry.as_object_mut().expect("HARNESS: step");
            for field in ["x", "r", "rs", "ask", "alt"] {
                map.remove(field);
            }
        }
        let h = || num(step, "h");
        let mut unexpected: Option<String> = None;
        match text(step, "a") {
            "Init" => {}
            "Build" => {
                let id = num(step, "id") as u32;
                slots[h()] = Some(Arc::new(if (h() + id as usize) % 2 == 0 { Lazy::builder(alone())(id) } else { builder(id) }));
                loaded[h()] = false;
            }
            "Make" => {
                let doc = Doc { id: num(step, "id") as u32, own: num(step, "id") as u32, version: num(step, "v") as u32 };
                slots[h()] = Some(Arc::new(Lazy::new(if h() % 2 == 0 { alone() } else { repo.clone() }, doc)));
                loaded[h()] = true;
            }
            "Clone" => {
                let q = num(step, "q");
                slots[q] = slots[h()].as_ref().map(|lazy| Arc::new(Lazy::clone(lazy)));
                loaded[q] = loaded[h()];
            }
            "Drop" => slots[h()] = None,
            "Begin" => {
                let t = num(step, "t") - 1;
                let lazy = slots[h()].clone().expect("HARNESS: document");
                let contended = threads.iter().any(|t| t.pending.contains(&h()));
                threads[t].cmds.send(Cmd::Resolve(lazy)).expect("HARNESS: worker");
                let event = if contended {
                    threads[t].events.recv_timeout(patience()).ok()
                } else {
                    Some(threads[t].events.recv().expect("HARNESS: event"))
                };
                match event {
                    Some(Event::Entered(id)) => {
                        threads[t].pending.push(h());
                        entry["ask"] = json!(id);
                        entry["r"] = json!(-2);
                    }
                    Some(Event::Returned(Ok(r))) => {
                        entry["ask"] = json!(0);
                        entry["r"] = json!(r);
                        loaded[h()] |= r > 0;
                    }
                    Some(Event::Returned(Err(msg))) => unexpected = Some(msg),
                    Some(Event::Panicked) => unexpected = Some("panicked without asking the repository".into()),
                    None => {
                        BLOCKED.fetch_add(1, Ordering::SeqCst);
                        // It waits for the other thread, which is a way to do it: supply the
                        // document to every call and see that each of them gets it.
                        entry["truncated"] = json!(true);
                        threads[t].pending.push(h());
                        if let Some(msg) = settle(&mut threads) {
                            entry["unexpected"] = json!(msg);
                        }
                        out.push(entry);
                        return out;
                    }
                }
            }
            "Answer" => {
                let t = num(step, "t") - 1;
                let at = threads[t].pending.pop().expect("HARNESS: pending call");
                let answer = if flag(step, "p") { Cmd::Panic } else { Cmd::Answer(num(step, "v") as u32) };
                threads[t].cmds.send(answer).expect("HARNESS: worker");
                match threads[t].events.recv().expect("HARNESS: event") {
                    Event::Panicked if flag(step, "p") => {
                        entry["r"] = if step.get("alt").is_some() { step["r"].clone() } else { json!(0) };
                    }
                    Event::Panicked => unexpected = Some("panicked although the repository did not".into()),
                    Event::Returned(Ok(r)) => {
                        loaded[at] |= r > 0;
                        let r = json!(r);
                        entry["r"] = if step.get("alt") == Some(&r) { step["r"].clone() } else { r };
                    }
                    Event::Returned(Err(msg)) => unexpected = Some(msg),
                    Event::Entered(id) => {
                        threads[t].pending.push(at);
                        unexpected = Some(format!("the repository was asked for {id} twice"));
                    }
                }
            }
            "Race" => {
                let n = num(step, "n");
                let lazy = slots[h()].clone().expect("HARNESS: document");
                let (counter, barrier) = (Arc::new(AtomicU32::new(0)), Arc::new(Barrier::new(n)));
                let results: Vec<Result<i64, String>> = (0..n)
                    .map(|_| {
                        let (lazy, counter, barrier) = (lazy.clone(), counter.clone(), barrier.clone());
                        std::thread::spawn(move || {
                            RACING.with(|r| *r.borrow_mut() = Some(counter));
                            barrier.wait();
                            shown(&lazy)
                        })
                    })
                    .collect::<Vec<_>>()
                    .into_iter()
                    .map(|t| t.join().unwrap_or_else(|p| Err(format!("panicked: {}", describe(&*p)))))
                    .collect();
                if let Some(Err(msg)) = results.iter().find(|r| r.is_err()) {
                    unexpected = Some(msg.clone());
                } else if loaded[h()] && counter.load(Ordering::SeqCst) > 0 {
                    unexpected = Some("the repository was asked for a loaded document".into());
                }
                loaded[h()] = true;
                entry["rs"] = json!(results.into_iter().map(|r| r.unwrap_or(-3)).collect::<Vec<_>>());
            }
            other => panic!("HARNESS: action {other}"),
        }
        let docs: Vec<Value> = (1..=nh)
            .map(|h| match &slots[h] {
                None => json!({"id": 0, "val": -1}),
                Some(lazy) if loaded[h] => match shown(lazy) {
                    Ok(val) => json!({"id": lazy.id(), "val": val}),
                    Err(msg) => json!(msg),
                },
                Some(lazy) => json!({"id": lazy.id(), "val": -1}),
            })
            .collect();
        if let Some(msg) = stray.lock().expect("HARNESS: stray").first() {
            unexpected.get_or_insert(msg.clone());
        }
        entry["x"] = json!({ "d": docs });
        if let Some(msg) = unexpected {
            entry["unexpected"] = json!(msg);
            out.push(entry);
            break;
        }
        out.push(entry);
    }
    // closing the channels answers whatever is still pending
    out
}

/// Answers every pending call with a document; none of them may report it absent.
fn settle(threads: &mut [Thread]) -> Option<String> {
    loop {
        let mut busy = false;
        for t in threads.iter_mut() {
            while let Ok(event) = t.events.try_recv() {
                match event {
                    Event::Panicked => return Some("panicked although the document was supplied".into()),
                    Event::Returned(Ok(0)) => return Some("reported absent although supplied".into()),
                    Event::Returned(Err(msg)) => return Some(msg),
                    Event::Returned(Ok(_)) => {
                        t.pending.pop();
                    }
                    Event::Entered(_) => {}
                }
            }
            if !t.pending.is_empty() {
                busy = true;
                // an answer nobody waits for is kept for the next call
                t.cmds.send(Cmd::Answer(1)).ok();
            }
        }
        if !busy {
            return None;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}
