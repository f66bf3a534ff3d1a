//! Checks of the writer of archives: a chain, its providers and the bucket answer from scripts.
#[path = "/repo/bin/e2hs-writer/src/cli.rs"]
mod cli;
mod head;
mod single;
#[path = "/repo/bin/e2hs-writer/src/subcommands/mod.rs"]
mod subcommands;
mod world;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "G01",
            level: Level::FaultEnumeration,
            rule: "all listings of a bucket with up to the bound of pages and names and a failure at every request, all lengths of a file around the limits with a failure at every request of the upload; state = the requests made",
            f: head::g01,
        },
        Check {
            id: "G02",
            level: Level::FaultEnumeration,
            rule: "all placings of blocks around the end of a period with skipped slots, all times at which the next period is final, and every fault at every block; state = the files uploaded and when",
            f: head::g02,
        },
        Check {
            id: "G03",
            level: Level::ModelChecking,
            rule: "all spreadings of the blocks of a file over consecutive archives in the bound, around fork changes, and every fault at every block; state = the requests made",
            f: single::g03,
        },
    ]);
}
