//! Checks of the storage layer.

mod beacon;
mod eternal;
mod ephemeral;
mod setup;
mod state;

#[path = "/repo/crates/subnetworks/beacon/src/storage.rs"]
mod beacon_storage;
#[path = "/repo/crates/subnetworks/legacy-history/src/storage.rs"]
mod legacy_history_storage;
#[path = "/repo/crates/subnetworks/state/src/storage.rs"]
mod state_storage;

// The ephemeral store is not public; its files are compiled here with the crate they belong to.
use trin_storage::{error, utils, ContentId, PortalStorageConfig};
mod versioned {
    pub use trin_storage::versioned::{ContentType, StoreVersion, VersionedContentStore};
    #[path = "/repo/crates/storage/src/versioned/ephemeral_v1/mod.rs"]
    pub mod ephemeral_v1;
    #[path = "/repo/crates/storage/src/versioned/usage_stats.rs"]
    pub mod usage_stats;
}

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "S01",
            level: Level::ModelChecking,
            rule: "all histories of inserts, deletes and reopenings over colliding keys up to the bound; state = (contents, capacity, radius)",
            f: eternal::s01,
        },
        Check {
            id: "S02",
            level: Level::ModelChecking,
            rule: "all histories up to the bound, all insertion orders and sizes, all reopenings; state = (contents, capacity, radius)",
            f: eternal::s02,
        },
        Check {
            id: "S03",
            level: Level::ModelChecking,
            rule: "all histories up to the bound, with and without a failing statement; state = (contents, capacity, radius)",
            f: eternal::s03,
        },
        Check {
            id: "S04",
            level: Level::FaultEnumeration,
            rule: "every statement of every operation after every short history, failing once or stopping the process",
            f: eternal::s04,
        },
        Check {
            id: "S05",
            level: Level::ModelChecking,
            rule: "all histories of inserts, deletes and reopenings up to the bound, with and without a failing statement; state = contents",
            f: ephemeral::s05,
        },
        Check {
            id: "S06",
            level: Level::ModelChecking,
            rule: "all sets of keys in all insertion orders, all page sizes; distinct = set of keys",
            f: eternal::s06,
        },
        Check {
            id: "S07",
            level: Level::Exploration,
            rule: "all lists of subnetworks and capacities of the alphabet; distinct = shares",
            f: setup::s07,
        },
        Check {
            id: "S08",
            level: Level::FaultEnumeration,
            rule: "all histories of openings by stores of every version up to the bound, every statement failing or stopping; state = recorded versions",
            f: setup::s08,
        },
        Check {
            id: "S09",
            level: Level::ModelChecking,
            rule: "all histories of stores, prunes and reopenings up to the bound, all queries after each; state = held items",
            f: beacon::s09,
        },
        Check {
            id: "S10",
            level: Level::Exploration,
            rule: "all combinations of key kind, value kind, proof and hash; distinct = stored bytes or refusal",
            f: state::s10,
        },
    ])
}
