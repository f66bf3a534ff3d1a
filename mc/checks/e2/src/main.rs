//! Checks of the archive formats.

mod archives;
mod entries;
mod listing;
mod snapshots;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "E01",
            level: Level::ModelChecking,
            rule: "all entry sequences up to the bound, all cuts, all changes of one header byte, all read and write sizes; state = the file",
            f: entries::e01,
        },
        Check {
            id: "E02",
            level: Level::ModelChecking,
            rule: "all archives of the family, all omissions, repetitions, swaps and changes of one entry at the chosen places; state = the entries",
            f: archives::e02,
        },
        Check {
            id: "E03",
            level: Level::FaultEnumeration,
            rule: "all histories of appends up to the bound, all cuts of the file, all entry sequences up to the bound; state = the items written",
            f: snapshots::e03,
        },
        Check {
            id: "E04",
            level: Level::Exploration,
            rule: "all sets of epochs, forms of links and orders over the alphabet; distinct = (function, epochs, verdict)",
            f: listing::e04,
        },
    ]);
}
