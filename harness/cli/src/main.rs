#[allow(dead_code)]
#[path = "../../core/src/common.rs"]
mod common;
mod repo;
#[path = "../../core/src/runner.rs"]
mod runner;

fn main() {
    runner::main(|module| match module {
        "repo" => repo::run,
        other => panic!("unknown module {other}"),
    })
}
