//! Checks of validation and of the light client.

mod beacon;
mod blocks;
mod builders;
mod chain;
mod fallback;
mod head;
mod headers;
mod light;
mod merkle;
mod sources;
mod state;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "V01",
            level: Level::ModelChecking,
            rule: "all trees and all push, finalise and reload histories up to the bound, all one-component changes of every branch; state = (leaves, finalised)",
            f: merkle::v01,
        },
        Check {
            id: "V02",
            level: Level::Exploration,
            rule: "every proof kind against every era, every single-component change of each proof; distinct = (kind, change, verdict)",
            f: headers::v02,
        },
        Check {
            id: "V03",
            level: Level::Exploration,
            rule: "all pairs of bodies or receipts and headers over the alphabet; distinct = (components that differ, verdict)",
            f: blocks::v03,
        },
        Check {
            id: "V04",
            level: Level::Exploration,
            rule: "all keys times all values times all answers of the header lookup; distinct = (key, value, answer, verdict)",
            f: blocks::v04,
        },
        Check {
            id: "V05",
            level: Level::Exploration,
            rule: "all nodes of the tries times all edits of their proofs and keys; distinct = (kind, edit, verdict)",
            f: state::v05,
        },
        Check {
            id: "V06",
            level: Level::Exploration,
            rule: "all tries over the key alphabet times all paths up to the bound; distinct = (trie, path, result)",
            f: state::v06,
        },
        Check {
            id: "V07",
            level: Level::Exploration,
            rule: "all key fields times value fields times views of the chain over the alphabet; distinct = (case, verdict)",
            f: beacon::v07,
        },
        Check {
            id: "V08",
            level: Level::ModelChecking,
            rule: "all histories of updates up to the bound; state = (latest, finalized, summaries)",
            f: head::v08,
        },
        Check {
            id: "V09",
            level: Level::Exploration,
            rule: "all beacon blocks over the alphabet of forks, transactions, withdrawals and requests, every change of a sealed block; distinct = (fork, block hash or verdict)",
            f: builders::v09,
        },
        Check {
            id: "V10",
            level: Level::Exploration,
            rule: "all forks times positions in the period, all state sizes, all trees up to the bound; distinct = (fork, position)",
            f: builders::v10,
        },
        Check {
            id: "L01",
            level: Level::Exploration,
            rule: "all combinations of store, slots, signers, domains and branches over the alphabet; distinct = (case, verdict)",
            f: light::l01,
        },
        Check {
            id: "L02",
            level: Level::ModelChecking,
            rule: "all sequences of served messages up to the bound after the bootstrap; state = light client store",
            f: light::l02,
        },
        Check {
            id: "L03",
            level: Level::Exploration,
            rule: "all combinations of served bootstrap, checkpoint, age and strictness; distinct = (case, verdict)",
            f: light::l03,
        },
        Check {
            id: "L04",
            level: Level::Exploration,
            rule: "all answers of all services over the alphabet; distinct = (checkpoints allowed, unhealthy service)",
            f: fallback::l04,
        },
        Check {
            id: "L05",
            level: Level::FaultEnumeration,
            rule: "all sources of the checkpoint, ages, fallbacks and their answers, all damaged checkpoint files; distinct = (checkpoint, strictness, verdict)",
            f: fallback::l05,
        },
        Check {
            id: "L06",
            level: Level::FaultEnumeration,
            rule: "all requests and answers over the alphabet; distinct = (request, answer)",
            f: sources::l06,
        },
        Check {
            id: "L07",
            level: Level::Exploration,
            rule: "all slots around the forks of the known chains and of all small calendars, all updates signed around a fork in every domain; distinct = version, (kind, verdict, slot)",
            f: light::l07,
        },
    ])
}
