//! Checks of the protocol data types: wire messages, keys, values, versions and distances.

mod calendar;
mod distances;
mod info;
mod keys;
mod networks;
mod payloads;
mod pings;
mod points;
mod reference;
mod traces;
mod values;
mod versions;
mod wire;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "F02",
            level: Level::Exploration,
            rule: "every slot and second of the stated windows; distinct = (network, active forks)",
            f: calendar::f02,
        },
        Check {
            id: "F03",
            level: Level::Exploration,
            rule: "every network and subnetwork, every name with up to the bound of edits and every two pieces of names; distinct = meaning",
            f: networks::f03,
        },
        Check {
            id: "W01",
            level: Level::Exploration,
            rule: "all messages of the alphabet, all edits of their bytes and all short byte strings; distinct = decoded message or refusal",
            f: wire::w01,
        },
        Check {
            id: "W03",
            level: Level::Exploration,
            rule: "all keys of the alphabet, all edits of their bytes and all short byte strings; distinct = decoded key or refusal",
            f: keys::w03,
        },
        Check {
            id: "W04",
            level: Level::Exploration,
            rule: "all code lists and raw byte strings of the stated lengths; distinct = decoded list",
            f: versions::w04,
        },
        Check {
            id: "W05",
            level: Level::Exploration,
            rule: "all pairs of version lists over the alphabet; distinct = chosen version or error",
            f: versions::w05,
        },
        Check {
            id: "W06",
            level: Level::Exploration,
            rule: "all extensions of the alphabet, all edits of their bytes and all type numbers; distinct = decoded extension or refusal",
            f: pings::w06,
        },
        Check {
            id: "W07",
            level: Level::Exploration,
            rule: "all values of the alphabet under all key kinds and all edits of their bytes; distinct = (kind, decoded bytes)",
            f: values::w07,
        },
        Check {
            id: "W08",
            level: Level::Exploration,
            rule: "all triples of the id alphabet and all scripts of the random source; distinct = distance",
            f: distances::w08,
        },
        Check {
            id: "W09",
            level: Level::Exploration,
            rule: "all paths and byte strings of the stated lengths; distinct = path",
            f: distances::w09,
        },
        Check {
            id: "W10",
            level: Level::ModelChecking,
            rule: "all histories of answers, content, failures and validations; distinct = (answers, failures, source)",
            f: traces::w10,
        },
        Check {
            id: "W11",
            level: Level::Exploration,
            rule: "all pairs of versions and chains of the alphabet, all pairs of such ranges and all byte strings up to the bound; distinct = (input class, result)",
            f: info::w11,
        },
        Check {
            id: "W12",
            level: Level::Exploration,
            rule: "all lengths up to the bound, every odd character at every place and every other kind of JSON, for each type; distinct = (type, refused, meant)",
            f: points::w12,
        },
        Check {
            id: "W13",
            level: Level::Exploration,
            rule: "all shapes and base fees of the alphabet and every field wrong in every listed way, for each fork; distinct = (fork, payload or header, shape)",
            f: payloads::w13,
        },
    ])
}
