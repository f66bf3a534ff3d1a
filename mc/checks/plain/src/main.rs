//! Checks of the modules that need no peer-to-peer or chain dependencies. The source files of
//! the repository are compiled in directly.

extern crate self as ethportal_api;

pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/client_type.rs"]
    pub mod client_type;
    pub mod consensus {
        #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
        pub mod constants;
        #[path = "/repo/crates/ethportal-api/src/types/consensus/fork.rs"]
        pub mod fork;
    }
    pub mod jsonrpc {
        #[path = "/repo/crates/ethportal-api/src/types/jsonrpc/params.rs"]
        pub mod params;
    }
    #[path = "/repo/bin/portal-bridge/src/types/mode.rs"]
    pub mod mode;
    #[path = "/repo/bin/portal-bridge/src/types/range.rs"]
    pub mod range;
}
pub mod utils {
    #[path = "/repo/crates/ethportal-api/src/utils/bytes.rs"]
    pub mod bytes;
}
#[path = "/repo/crates/metrics/src/timer.rs"]
pub mod timer;
pub mod merkle {
    #[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
    pub mod safe_arith;
}
pub use types::consensus;

mod arith;
mod bridge;
mod forks;
mod hexes;
mod names;
mod params_check;
mod timers;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "H01",
            level: Level::Exploration,
            rule: "every byte string and every text of the stated bounds once; distinct = (result kind, length, prefix spelling)",
            f: hexes::h01,
        },
        Check {
            id: "H02",
            level: Level::ModelChecking,
            rule: "every leading-zero count times every script of the random source; state = (count, produced value)",
            f: hexes::h02,
        },
        Check {
            id: "H03",
            level: Level::Exploration,
            rule: "all case variants and one-character edits of all names and short texts; distinct = resulting printed type",
            f: names::h03,
        },
        Check {
            id: "H04",
            level: Level::Exploration,
            rule: "all JSON values of the stated shapes; distinct = decoded value",
            f: params_check::h04,
        },
        Check {
            id: "F01",
            level: Level::Exploration,
            rule: "all forks, digests and texts of the stated windows; distinct = (input class, result)",
            f: forks::f01,
        },
        Check {
            id: "M01",
            level: Level::ModelChecking,
            rule: "all operation sequences on up to three timers; state = (live timers with start times, histogram contents, clock)",
            f: timers::m01,
        },
        Check {
            id: "A01",
            level: Level::Exploration,
            rule: "all operand pairs of the stated sets per type and operation; distinct = (type, operation, result)",
            f: arith::a01,
        },
        Check {
            id: "B01",
            level: Level::Exploration,
            rule: "all token sequences of the stated length; distinct = parsed mode or error text",
            f: bridge::b01,
        },
        Check {
            id: "B02",
            level: Level::Exploration,
            rule: "all ranges with ends in the stated windows; distinct = resulting epoch map",
            f: bridge::b02,
        },
    ])
}
