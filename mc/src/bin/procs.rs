#[path = "../explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "../units.rs"]
#[allow(dead_code, unused_macros)]
mod units;
#[path = "../bfs.rs"]
#[allow(dead_code)]
mod bfs;
#[path = "../delay.rs"]
#[allow(dead_code)]
mod delay;
#[path = "../procs.rs"]
mod procs;
#[path = "../windows.rs"]
#[allow(dead_code)]
mod windows;
#[path = "../cli.rs"]
mod cli;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("alone") {
        return procs::alone_main(&a[2..]);
    }
    cli::main(procs::scenarios, |_, _| vec![]);
}
