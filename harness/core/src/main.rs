mod common;
mod graphs;
mod lazy;
mod ops;
mod res;
mod runner;
mod stress;
mod tx;

fn main() {
    runner::main(|module| match module {
        "tx" => tx::run,
        "stress" => stress::run,
        "ops" => ops::run,
        "res" => res::run,
        "graph" => graphs::run,
        "lazy" => lazy::run,
        other => panic!("unknown module {other}"),
    })
}
