//! Checks of the execution of blocks and of the state that comes of it.

mod blocks;
mod commits;
mod content;
mod executor;
mod model;
mod runs;
mod snapshot;
mod sources;
mod walker;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "X01",
            level: Level::ModelChecking,
            rule: "all tries over the chosen keys, all slices of the chosen counts, all sets of missing nodes up to the bound; state = the trie",
            f: walker::x01,
        },
        Check {
            id: "X02",
            level: Level::ModelChecking,
            rule: "all nodes of all tries of the family, all codes of the family; state = the proof",
            f: content::x02,
        },
        Check {
            id: "X03",
            level: Level::ModelChecking,
            rule: "all histories of changes up to the bound, in both orders, with and without reopening; state = accounts, code and storage",
            f: commits::x03,
        },
        Check {
            id: "X04",
            level: Level::ModelChecking,
            rule: "all numbers, transactions, uncles and withdrawals of the alphabet within bounds; state = number and state after the block",
            f: executor::x04,
        },
        Check {
            id: "X05",
            level: Level::FaultEnumeration,
            rule: "all histories of sessions, runs, stops and faults within bounds; state = epoch, session, blocks done",
            f: runs::x05,
        },
        Check {
            id: "X06",
            level: Level::FaultEnumeration,
            rule: "all states of the family, all alterations, all lengths, all failing writes; state = what was imported",
            f: snapshot::x06,
        },
        Check {
            id: "X07",
            level: Level::ModelChecking,
            rule: "all starts and missing archives of the family, all shapes of blocks; state = start and archives, or the block",
            f: sources::x07,
        },
        Check {
            id: "X08",
            level: Level::ModelChecking,
            rule: "all settings of traces and runs, all words and command lines of the alphabet; state = the setting",
            f: sources::x08,
        },
    ]);
}
