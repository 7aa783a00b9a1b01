#[allow(dead_code)]
#[path = "../../core/src/common.rs"]
mod common;
mod dates;
#[path = "../../core/src/runner.rs"]
mod runner;
mod tree;

fn main() {
    runner::main(|module| match module {
        "tree" => tree::run,
        "date" => dates::run,
        other => panic!("unknown module {other}"),
    })
}
