#[path = "../explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "../units.rs"]
#[allow(dead_code, unused_macros)]
mod units;
#[path = "../bfs.rs"]
#[allow(dead_code)]
mod bfs;
#[path = "../windows.rs"]
mod windows;
#[path = "../cli.rs"]
mod cli;

fn main() {
    cli::main(windows::scenarios, |_, _| vec![]);
}
