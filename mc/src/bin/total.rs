#[path = "../explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "../units.rs"]
#[allow(dead_code, unused_macros)]
mod units;
#[path = "../bfs.rs"]
#[allow(dead_code)]
mod bfs;
#[path = "../total.rs"]
mod total;
#[path = "../cli.rs"]
mod cli;

fn main() {
    cli::main(total::scenarios, |_, _| vec![]);
}
