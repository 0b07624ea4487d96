#[path = "../explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "../units.rs"]
#[allow(dead_code, unused_macros)]
mod units;
#[path = "../bfs.rs"]
#[allow(dead_code)]
mod bfs;
#[path = "../rbj.rs"]
mod rbj;
#[path = "../cli.rs"]
mod cli;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("alone") {
        return rbj::alone_main(&a[2..]);
    }
    cli::main(rbj::scenarios, |_, _| vec![]);
}
