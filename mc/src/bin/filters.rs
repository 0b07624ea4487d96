#[path = "../explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "../units.rs"]
#[allow(dead_code, unused_macros)]
mod units;
#[path = "../bfs.rs"]
#[allow(dead_code)]
mod bfs;
#[path = "../filters.rs"]
mod filters;
#[path = "../cli.rs"]
mod cli;

fn main() {
    cli::main(filters::scenarios, |_, _| vec![]);
}
