//! The driver that needs the hooks of /repo (cfg plotline_verif).
#[allow(dead_code)]
#[path = "../../core/src/common.rs"]
mod common;
mod index;
#[path = "../../core/src/runner.rs"]
mod runner;

fn main() {
    runner::main(|module| match module {
        "index" => index::run,
        other => panic!("unknown module {other}"),
    })
}
