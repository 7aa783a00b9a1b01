//! Driver of Repository.tla.

use crate::common::*;
use clap::Parser;
use plotline::{
    deref::TryDeref,
    document::{lazy::LazyDocument, DocumentRepository},
    graph::Graph,
    id::Identify,
    schema::Schema,
};
use plotline_cli::{
    document::{Document, DocumentCli, DocumentCommand},
    repository::LocalDocumentRepository,
};
use serde_json::{json, Value};
use std::{
    cell::Cell,
    ffi::{OsStr, OsString},
    fs,
    hash::{DefaultHasher, Hash, Hasher},
    io::{self, Read, Seek, Write},
    os::{
        fd::AsRawFd,
        unix::{
            ffi::{OsStrExt, OsStringExt},
            fs::{symlink, MetadataExt, PermissionsExt},
            net::UnixListener,
        },
    },
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::Command,
    sync::Arc,
    time::{Duration, SystemTime, UNIX_EPOCH},
};

type Lazy = LazyDocument<LocalDocumentRepository>;

#[derive(Parser)]
struct Args {
    #[command(flatten)]
    command: DocumentCommand,
}

fn name(parts: &Value) -> OsString {
    let parts: Vec<Vec<u8>> = parts
        .as_array()
        .expect("HARNESS: name")
        .iter()
        .map(|p| match p.as_str().expect("HARNESS: part") {
            "raw" => vec![0xff, 0xfe],
            p => p.as_bytes().to_vec(),
        })
        .collect();
    OsString::from_vec(parts.join(&b'.'))
}

fn path(names: &Value) -> PathBuf {
    names.as_array().expect("HARNESS: path").iter().map(name).collect()
}

/// More than any buffer or size limit a reader might have.
static LARGE: [u8; 6 << 20] = [b'x'; 6 << 20];
/// Where there are many documents.
const MANY: &str = "many-7";
static CONTENTS: [&[u8]; 6] =
    [
        b"",
        b"",
        b"-",
        "\u{feff}# m\u{fa}ltiple\n\"l\u{ed}neas\" \\n %20 $HOME ~ @a\n".as_bytes(),
        b"---\nt: 1\n---\r\n\0\xff\xfe\n\r\x80\t ",
        &LARGE,
    ];

fn content(bytes: &[u8]) -> Value {
    match (1..CONTENTS.len()).find(|c| CONTENTS[*c] == bytes) {
        Some(c) => json!(c),
        None => json!(format!(
            "unknown contents ({} bytes) {:?}",
            bytes.len(),
            String::from_utf8_lossy(&bytes[..bytes.len().min(200)])
        )),
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// What `action` prints.
fn captured<T>(dir: &Path, action: impl FnOnce() -> T) -> (T, String) {
    let at = dir.join("stdout");
    let mut file = fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .read(true)
        .write(true)
        .open(&at)
        .expect("HARNESS: capture");
    std::io::stdout().flush().ok();
    let saved = unsafe { dup(1) };
    unsafe { dup2(file.as_raw_fd(), 1) };
    let result = catch_unwind(AssertUnwindSafe(action));
    std::io::stdout().flush().ok();
    unsafe {
        dup2(saved, 1);
        close(saved);
    }
    let mut out = String::new();
    file.rewind().expect("HARNESS: rewind");
    file.read_to_string(&mut out).ok();
    match result {
        Ok(result) => (result, out),
        Err(p) => std::panic::resume_unwind(p),
    }
}

struct World {
    /// How many files were written, to vary the way it is done.
    writes: Cell<usize>,
    scratch: PathBuf,
    base: PathBuf,
    context: PathBuf,
    extension: String,
    style: String,
    pool: Vec<PathBuf>,
    ids: Vec<PathBuf>,
    session: Option<DocumentCli<LocalDocumentRepository>>,
}

impl World {
    fn repo(&self) -> Arc<LocalDocumentRepository> {
        Arc::new(LocalDocumentRepository { context: self.context.clone(), extension: self.extension.clone() })
    }

    /// Ids as a vector over the ids observed, in the order they are given if `ordered`, and the
    /// number of those in the directory of the many.
    fn counts(&self, all: &[PathBuf], ordered: bool) -> (Value, Value) {
        let (many, few): (Vec<PathBuf>, Vec<PathBuf>) = all.iter().cloned().partition(|id| id.starts_with(MANY));
        let sorted = !ordered || all.windows(2).all(|w| w[0] <= w[1]);
        let expected: Vec<PathBuf> = (1..=many.len()).map(|k| Path::new(MANY).join(format!("{k:05}"))).collect();
        let mut many = many;
        many.sort();
        let n = if !sorted {
            json!("not in ascending order")
        } else if many != expected {
            json!(format!("{} of the many, not the first ones once each", many.len()))
        } else {
            json!(many.len())
        };
        (self.few(&few, ordered), n)
    }

    fn few(&self, ids: &[PathBuf], ordered: bool) -> Value {
        if let Some(unknown) = ids.iter().find(|id| !self.ids.contains(id)) {
            return json!(format!("unknown id {unknown:?}"));
        }
        if ordered && !ids.windows(2).all(|w| w[0] <= w[1]) {
            return json!(format!("not in ascending order: {ids:?}"));
        }
        json!(self.ids.iter().map(|id| ids.iter().filter(|other| *other == id).count()).collect::<Vec<_>>())
    }

    /// The lines of a printed listing as a vector over the ids observed.
    fn printed(&self, out: &str) -> (Value, Value) {
        let mut ids = vec![];
        for line in out.lines() {
            let as_printed = |id: &&PathBuf| format!("{id:?}") == line || id.display().to_string() == line;
            match self.ids.iter().find(as_printed) {
                Some(id) => ids.push(id.clone()),
                None if line.trim_matches('"').starts_with(MANY) => ids.push(line.trim_matches('"').into()),
                None => return (json!(format!("unknown line {line:?}")), json!("not counted")),
            }
        }
        self.counts(&ids, true)
    }

    /// Gives a file its content; a different kind of regular file every time.
    fn put(&self, at: &Path, c: usize) -> io::Result<()> {
        let style = self.writes.get();
        self.writes.set(style + 1);
        if at.metadata().is_ok_and(|file| style % 3 != 0 || file.nlink() > 1) {
            fs::remove_file(at)?;
        }
        match style % 7 {
            // replaced at once
            1 => {
                let new = self.scratch.join("new");
                fs::write(&new, CONTENTS[c])?;
                fs::rename(new, at)
            }
            // one file under several names
            2 | 4 if !at.exists() => {
                let shared = self.scratch.join(format!("shared{c}"));
                if !shared.exists() {
                    fs::write(&shared, CONTENTS[c])?;
                }
                fs::hard_link(shared, at)
            }
            3 => {
                fs::write(at, CONTENTS[c])?;
                fs::set_permissions(at, fs::Permissions::from_mode(0o755))
            }
            // of long ago, of the future
            5 | 6 => {
                fs::write(at, CONTENTS[c])?;
                let time = if style % 7 == 5 { UNIX_EPOCH } else { SystemTime::now() + Duration::from_secs(1 << 30) };
                fs::File::options().write(true).open(at)?.set_modified(time)
            }
            _ => fs::write(at, CONTENTS[c]),
        }
    }

    fn state(&self) -> Value {
        let repo = self.repo();
        let listed: Vec<Lazy> = repo.all().collect();
        let ids: Vec<PathBuf> = listed.iter().map(|doc| doc.id().clone()).collect();
        let shown = |doc: Option<&Document>| doc.map(|doc| content(&doc.bytes)).unwrap_or(json!(0));
        let bytes: Vec<Value> = self
            .ids
            .iter()
            .map(|id| match listed.iter().find(|doc| doc.id() == id) {
                Some(doc) => {
                    let (first, again) = (shown(doc.try_deref()), shown(doc.clone().try_deref()));
                    if first == again { first } else { json!(format!("{first}, then {again}")) }
                }
                None => json!(0),
            })
            .collect();
        let found: Vec<Value> = self
            .ids
            .iter()
            .map(|id| {
                let found = shown(repo.find_by_id(id).as_ref());
                let mut same = OsString::new();
                for (k, part) in id.iter().enumerate() {
                    same.push(if k == 0 { "" } else { "//" });
                    same.push(part);
                }
                let again = shown(repo.find_by_id(&same.clone().into()).as_ref());
                if found == again { found } else { json!(format!("{found}, but {again} as {same:?}")) }
            })
            .collect();
        let (graph, held) = match &self.session {
            None => (json!(vec![0; self.ids.len()]), json!(0)),
            Some(cli) => {
                let held: Vec<PathBuf> = (&*cli.schema.read()).into_iter().map(|doc| doc.id().clone()).collect();
                self.counts(&held, true)
            }
        };
        let (few, mut many) = self.counts(&ids, false);
        // each of the many holds its own name: some of them are read
        let of_many = listed.iter().filter(|doc| doc.id().starts_with(MANY));
        for doc in of_many.step_by(1 + listed.len() / 20) {
            let name = doc.id().file_name().expect("HARNESS: name").to_owned();
            match doc.try_deref() {
                Some(doc) if doc.bytes == name.as_bytes() => {}
                other => many = json!(format!("{name:?} yields {:?}", other.map(|doc| content(&doc.bytes)))),
            }
        }
        json!({"l": few, "b": bytes, "f": found, "g": graph, "n": many, "gn": held})
    }

    fn execute(&self, args: &[&OsStr]) -> (Value, String) {
        let mut line = vec![OsStr::new("doc")];
        line.extend(args);
        let command = match Args::try_parse_from(line) {
            Ok(args) => args.command,
            Err(err) => return (json!(format!("rejected: {err}")), String::new()),
        };
        let cli = self.session.as_ref().expect("HARNESS: session");
        let (result, out) = captured(&self.scratch, || cli.execute(command));
        match result {
            Ok(()) => (json!("ok"), out),
            Err(err) if err.to_string() == "nothing to apply" => (json!("noop"), out),
            Err(err) => (json!(format!("failed: {err}")), out),
        }
    }

    fn program(&self, args: &[&OsStr]) -> (i32, String, String) {
        let program = std::env::current_exe().expect("HARNESS: exe").with_file_name("plotline");
        // every way of naming the directory goes with a way of saying so
        let mut line: Vec<&OsStr> = vec![];
        let (context, extension) = (self.context.as_os_str(), OsStr::new(&self.extension));
        match self.style.as_str() {
            "dot" => {
                // left to the defaults where they apply
                if self.extension != "md" {
                    line.extend([OsStr::new("-e"), extension]);
                }
                line.push(OsStr::new("doc"));
                line.extend(args);
            }
            "slash" => {
                line.push(OsStr::new("doc"));
                line.extend(args);
                line.extend([OsStr::new("-e"), extension, OsStr::new("-C"), context]);
            }
            "rel" => {
                line.extend([OsStr::new("--context"), context, OsStr::new("--extension"), extension]);
                line.push(OsStr::new("doc"));
                line.extend(args);
            }
            _ => {
                line.extend([OsStr::new("-C"), context, OsStr::new("-e"), extension]);
                line.push(OsStr::new("doc"));
                line.extend(args);
            }
        }
        let out = Command::new(program)
            .args(line)
            .output()
            .expect("HARNESS: program");
        let code = match out.status.code() {
            Some(0) => 0,
            Some(101) | None => 101, // panicked
            Some(_) => 1,
        };
        (
            code,
            String::from_utf8_lossy(&out.stdout).into_owned(),
            String::from_utf8_lossy(&out.stderr).into_owned(),
        )
    }

    fn args<'a>(&'a self, cmd: &'a str, j: usize, c: usize) -> Vec<&'a OsStr> {
        let mut args: Vec<&OsStr> = vec![];
        if j > 0 {
            args.push(self.ids[j - 1].as_os_str());
        }
        args.push(OsStr::new(cmd));
        if cmd == "save" && c > 1 {
            args.push(OsStr::from_bytes(CONTENTS[c]));
        }
        args
    }

    fn step(&mut self, step: &Value, entry: &mut Value) {
        let at = |field: &str| self.base.join(&self.pool[num(step, field) - 1]);
        match text(step, "a") {
            "Init" => {}
            "Mkdir" => fs::create_dir(at("k")).expect("HARNESS: mkdir"),
            "Write" => self.put(&at("k"), num(step, "c")).expect("HARNESS: write"),
            "Remove" => {
                let at = at("k");
                let kind = at.symlink_metadata().expect("HARNESS: metadata");
                if kind.is_dir() { fs::remove_dir_all(at) } else { fs::remove_file(at) }.expect("HARNESS: remove")
            }
            "Rename" => {
                // (renaming a file to another name of itself does nothing)
                if at("m").symlink_metadata().is_ok_and(|file| file.is_file() && file.nlink() > 1) {
                    fs::remove_file(at("m")).expect("HARNESS: rename");
                }
                fs::rename(at("k"), at("m")).expect("HARNESS: rename")
            }
            "Special" => match num(step, "c") {
                6 => symlink(self.scratch.join("nowhere"), at("k")).expect("HARNESS: symlink"),
                // the name of a socket has to be short
                7 => {
                    let short = self.scratch.join("s");
                    UnixListener::bind(&short).expect("HARNESS: socket");
                    fs::rename(short, at("k")).expect("HARNESS: socket")
                }
                8 => symlink(&self.scratch, at("k")).expect("HARNESS: symlink"),
                // directories too deep for a path
                _ => {
                    let cwd = std::env::current_dir().expect("HARNESS: cwd");
                    fs::create_dir(at("k")).expect("HARNESS: mkdir");
                    std::env::set_current_dir(at("k")).expect("HARNESS: chdir");
                    for _ in 0..20 {
                        let long = "x".repeat(250);
                        fs::create_dir(&long).expect("HARNESS: mkdir");
                        std::env::set_current_dir(&long).expect("HARNESS: chdir");
                    }
                    std::env::set_current_dir(cwd).expect("HARNESS: chdir");
                }
            },
            "Fill" => {
                let dir = self.base.join(MANY);
                fs::create_dir_all(&dir).expect("HARNESS: mkdir");
                for k in 1..=num(step, "n") {
                    let name = format!("{k:05}");
                    fs::write(dir.join(format!("{name}.{}", self.extension)), &name).expect("HARNESS: write");
                }
            }
            "Ignore" => {
                let how = text(step, "how");
                if [".gitignore", "exclude"].contains(&how) {
                    fs::create_dir_all(self.base.join(".git/info")).expect("HARNESS: mkdir");
                }
                let list = match how {
                    "exclude" => self.base.join(".git/info/exclude"),
                    "parent" => self.base.with_file_name(".ignore"),
                    name => self.base.join(name),
                };
                let mut file = fs::OpenOptions::new()
                    .create(true)
                    .append(true)
                    .open(list)
                    .expect("HARNESS: ignore");
                let mut line = self.pool[num(step, "k") - 1].as_os_str().as_bytes().to_vec();
                line.push(b'\n');
                file.write_all(&line).expect("HARNESS: ignore");
            }
            "Start" => {
                let document_repo = self.repo();
                #[allow(clippy::arc_with_non_send_sync)]
                let schema = Arc::new(Schema::from(Graph::from_iter(document_repo.all())));
                self.session = Some(DocumentCli { schema, document_repo });
            }
            "List" => {
                // the alias as well, and with an id, which makes no difference
                let (r, out) = self.execute(&[OsStr::new("list")]);
                let plain = |id: &&PathBuf| id.to_str().is_some_and(|id| id.starts_with(char::is_alphabetic) && id.len() < 4);
                let mut ls: Vec<&OsStr> = self.ids.iter().filter(plain).take(1).map(|id| id.as_os_str()).collect();
                ls.push(OsStr::new("ls"));
                let (again, alias) = self.execute(&ls);
                entry["r"] = if r == again { r } else { json!(format!("{r}, then {again}")) };
                let ((out, n), alias) = (self.printed(&out), self.printed(&alias));
                let same = (out.clone(), n.clone()) == alias;
                entry["out"] = if same { out } else { json!(format!("{out}, then {}", alias.0)) };
                entry["outn"] = n;
            }
            "Save" => {
                let args = self.args("save", num(step, "j"), num(step, "c"));
                let (r, out) = self.execute(&args);
                entry["r"] = if out.is_empty() { r } else { json!(format!("printed {out:?}")) };
            }
            "Delete" => {
                let args = self.args("delete", num(step, "j"), 0);
                let (r, out) = self.execute(&args);
                entry["r"] = if out.is_empty() { r } else { json!(format!("printed {out:?}")) };
            }
            "NoId" => {
                let args = self.args(text(step, "cmd"), 0, 2);
                let (r, _) = self.execute(&args);
                entry["r"] = if r == json!("ok") { r } else { json!("failed") };
            }
            "Read" => {
                let id = &self.ids[num(step, "j") - 1];
                let schema = &self.session.as_ref().expect("HARNESS: session").schema;
                let graph = schema.read();
                let doc = (&*graph).into_iter().find(|doc| doc.id() == id);
                entry["r"] = match doc {
                    None => json!(-9),
                    Some(doc) => doc.try_deref().map(|doc| content(&doc.bytes)).unwrap_or(json!(0)),
                };
            }
            "Prog" => {
                let cmd = text(step, "cmd");
                let args = self.args(cmd, num(step, "j"), num(step, "c"));
                let (code, out, err) = self.program(&args);
                entry["why"] = match code {
                    0 => json!(""),
                    _ if err.contains("nothing to apply") => json!("noop"),
                    _ => json!("other"),
                };
                entry["exit"] = match code {
                    101 => json!(format!("died: {err}")),
                    // which code a failure has is up to the command
                    code => json!(code.min(1)),
                };
                if cmd == "list" {
                    (entry["out"], entry["outn"]) = self.printed(&out);
                }
            }
            other => panic!("HARNESS: action {other}"),
        }
    }
}

pub fn run(steps: &[Value]) -> Vec<Value> {
    static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let root = PathBuf::from(std::env::var_os("PLOTLINE_SCRATCH").expect("HARNESS: PLOTLINE_SCRATCH"));
    let scratch = root.join(format!("{}-{n}", std::process::id()));
    let base = match text(&steps[0]["cfg"], "ctx") {
        "hidden" => scratch.join(".h/.base"),
        _ => scratch.join("base"),
    };
    fs::create_dir_all(&base).expect("HARNESS: scratch");

    let cfg = &steps[0]["cfg"];
    let (context, cwd) = match text(cfg, "ctx") {
        "abs" | "hidden" => (base.clone(), root.clone()),
        "up" => {
            fs::create_dir_all(scratch.join("other/sub")).expect("HARNESS: scratch");
            (PathBuf::from("../../base"), scratch.join("other/sub"))
        }
        "link" => {
            symlink(&base, scratch.join("link")).expect("HARNESS: symlink");
            (scratch.join("link"), root.clone())
        }
        "slash" => {
            let mut with_slash = base.clone().into_os_string();
            with_slash.push("/");
            (with_slash.into(), root.clone())
        }
        "dot" => (PathBuf::from("."), base.clone()),
        "rel" => (PathBuf::from("base"), scratch.clone()),
        other => panic!("HARNESS: context {other}"),
    };
    std::env::set_current_dir(&cwd).expect("HARNESS: chdir");
    let all = |field: &str| cfg[field].as_array().expect("HARNESS: paths").iter().map(path).collect::<Vec<_>>();
    let mut world = World {
        writes: Cell::new({
            let mut hasher = DefaultHasher::new();
            steps.iter().for_each(|step| step.to_string().hash(&mut hasher));
            (hasher.finish() % 21) as usize
        }),
        scratch: scratch.clone(),
        base,
        context,
        extension: name(&cfg["ext"]).into_string().expect("HARNESS: extension"),
        style: text(cfg, "ctx").to_owned(),
        pool: all("pool"),
        ids: all("ids"),
        session: None,
    };

    let mut out = vec![];
    for step in steps {
        let mut entry = step.clone();
        let map = entry.as_object_mut().expect("HARNESS: step");
        for field in ["x", "r", "out", "outn", "exit", "why"] {
            map.remove(field);
        }
        let done = catch_unwind(AssertUnwindSafe(|| {
            world.step(step, &mut entry);
            world.state()
        }));
        match done {
            Ok(state) => {
                entry["x"] = state;
                out.push(entry);
            }
            Err(p) => {
                entry["unexpected"] = json!(describe(&*p));
                out.push(entry);
                break;
            }
        }
    }
    std::env::set_current_dir(&root).ok();
    fs::remove_dir_all(&scratch).ok();
    out
}
