#[path = "../explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "../units.rs"]
#[allow(dead_code, unused_macros)]
mod units;
#[path = "../bfs.rs"]
#[allow(dead_code)]
mod bfs;
#[path = "../util.rs"]
mod util;
#[path = "../cli.rs"]
mod cli;

fn main() {
    cli::main(util::scenarios, |_, _| vec![]);
}
