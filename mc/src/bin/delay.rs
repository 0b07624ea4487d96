#[path = "../explore.rs"]
#[allow(dead_code)]
mod explore;
#[path = "../units.rs"]
#[allow(dead_code, unused_macros)]
mod units;
#[path = "../bfs.rs"]
#[allow(dead_code)]
mod bfs;
#[path = "../delay.rs"]
mod delay;
#[path = "../cli.rs"]
mod cli;

fn main() {
    cli::main(delay::scenarios, fixpoints);
}

fn fixpoints(id: &str, thorough: bool) -> cli::Searches {
    #[cfg(rasp_verif)]
    return delay::fixpoint::run(id, thorough);
    #[cfg(not(rasp_verif))]
    {
        let _ = (id, thorough);
        vec![]
    }
}
