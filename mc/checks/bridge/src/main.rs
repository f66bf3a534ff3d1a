//! Checks of the bridge, which runs against scripted peers, providers and archives.

#![allow(dead_code)]

extern crate bridge_fakes as trin;
extern crate bridge_fakes as trin_beacon;
extern crate bridge_fakes as trin_legacy_history;
extern crate bridge_fakes as trin_state;

#[path = "/repo/bin/portal-bridge/src/census/mod.rs"]
mod census;
#[path = "/repo/bin/portal-bridge/src/cli.rs"]
mod cli;
#[path = "/repo/bin/portal-bridge/src/constants.rs"]
mod constants;
#[path = "/repo/bin/portal-bridge/src/handle.rs"]
mod handle;
#[path = "/repo/bin/portal-bridge/src/types/mod.rs"]
mod types;
#[path = "/repo/bin/portal-bridge/src/utils.rs"]
mod utils;
mod bridge {
    #[path = "/repo/bin/portal-bridge/src/bridge/beacon.rs"]
    pub mod beacon;
    #[path = "/repo/bin/portal-bridge/src/bridge/constants.rs"]
    pub mod constants;
    #[path = "/repo/bin/portal-bridge/src/bridge/e2hs.rs"]
    pub mod e2hs;
    #[path = "/repo/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs"]
    pub mod ephemeral_history;
    #[path = "/repo/bin/portal-bridge/src/bridge/offer_report.rs"]
    pub mod offer_report;
    #[path = "/repo/bin/portal-bridge/src/bridge/state.rs"]
    pub mod state;
}

mod archive;
#[path = "../../execution/src/blocks.rs"]
mod blocks;
#[path = "../../execution/src/commits.rs"]
mod commits;
#[path = "../../execution/src/content.rs"]
mod content;
#[path = "../../execution/src/executor.rs"]
mod executor;
mod gossip;
mod head;
mod known;
mod latest;
#[path = "../../execution/src/model.rs"]
mod model;
#[path = "../../net/src/peers.rs"]
mod peers;
#[path = "../../execution/src/runs.rs"]
mod runs;
#[path = "../../execution/src/snapshot.rs"]
mod snapshot;
#[path = "../../execution/src/walker.rs"]
mod walker;
mod world;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "B03",
            level: Level::ModelChecking,
            rule: "all histories of check results up to the bound, over one and two peers; state = (failures in a row, peers known)",
            f: known::b03,
        },
        Check {
            id: "B04",
            level: Level::ModelChecking,
            rule: "all histories of events and time steps up to the bound, all populations and limits in the bound; state = weights of the peers",
            f: known::b04,
        },
        Check {
            id: "B05",
            level: Level::ModelChecking,
            rule: "all histories of answers to checks up to the bound; state = (record, client, radius, failures)",
            f: known::b05,
        },
        Check {
            id: "B06",
            level: Level::ModelChecking,
            rule: "all histories of what the provider has and fails to give per slot, up to the bound; state = the history",
            f: latest::b06,
        },
        Check {
            id: "B07",
            level: Level::ModelChecking,
            rule: "all ranges over the boundaries, all sequences of kinds of blocks up to the bound, all speeds of peers and limits in the bound; state = (blocks, peers, limit, speeds)",
            f: archive::b07,
        },
        Check {
            id: "B08",
            level: Level::ModelChecking,
            rule: "all histories of events up to the bound over a tree of blocks, every failure at every block, all speeds of peers and limits in the bound; state = blocks known",
            f: head::b08,
        },
        Check {
            id: "B09",
            level: Level::ModelChecking,
            rule: "all sequences of blocks up to the bound, all states of the chosen accounts, all limits and speeds of peers in the bound; state = the state whose nodes are offered",
            f: gossip::b09,
        },
    ]);
}
