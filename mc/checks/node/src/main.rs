//! Checks of the whole node.

mod blocks;
mod cli;
mod contents;
mod eth;
mod evm;
mod outgoing;
mod services;
#[path = "../../net/src/peers.rs"]
mod peers;
mod tables;
mod wire;
mod world;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "N01",
            level: Level::Exploration,
            rule: "all sets of networks, protocol ids and bodies, and all events, in the bound; distinct = (protocol, body, size of the answer)",
            f: wire::n01,
        },
        Check {
            id: "N02",
            level: Level::ModelChecking,
            rule: "all histories of stores and puts in the bound, each followed by all lookups; distinct = (value, method, held before)",
            f: contents::n02,
        },
        Check {
            id: "N03",
            level: Level::ModelChecking,
            rule: "all histories of additions and removals in the bound, with all tables read after each; distinct = (table, record, number of records)",
            f: tables::n03,
        },
        Check {
            id: "N04",
            level: Level::Exploration,
            rule: "all calls, peers and answers in the bound; distinct = (network, call, answer)",
            f: outgoing::n04,
        },
        Check {
            id: "N05",
            level: Level::ModelChecking,
            rule: "all configurations and histories in the bound; distinct = (networks, place), (address, step) or answer",
            f: services::n05,
        },
        Check {
            id: "N06",
            level: Level::ModelChecking,
            rule: "all blocks, states and calls in the bound; distinct = (block, what lacks), (state, lost node), call",
            f: eth::n06,
        },
        Check {
            id: "N07",
            level: Level::Exploration,
            rule: "all command lines in the bound; distinct = command lines",
            f: cli::n07,
        },
        Check {
            id: "N08",
            level: Level::ModelChecking,
            rule: "all histories of starts in the bound; states = (directories, has a key)",
            f: cli::n08,
        },
        Check {
            id: "N09",
            level: Level::Exploration,
            rule: "all blocks and transactions in the bound; distinct = (rules, kind)",
            f: evm::n09,
        },
    ]);
}
