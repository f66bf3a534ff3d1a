//! Checks of the parts of the overlay network that need no running service.

mod alloc;
mod gossip;
mod lookup;
mod metrics;
mod payload;
mod peers;
mod pool;
mod queue;
mod table;
mod transfers;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "W02",
            level: Level::Exploration,
            rule: "all lists of values up to the bound, all cuts of their payloads and all short byte strings; distinct = (input class, result)",
            f: payload::w02,
        },
        Check {
            id: "Q01",
            level: Level::ModelChecking,
            rule: "all orders of replies, failures, late replies and time steps up to the bound; state = status of every peer",
            f: lookup::q01,
        },
        Check {
            id: "Q02",
            level: Level::ModelChecking,
            rule: "all orders of replies, failures, verdicts and time steps up to the bound; state = status of every peer and of the content received",
            f: lookup::q02,
        },
        Check {
            id: "Q03",
            level: Level::ModelChecking,
            rule: "all histories of additions, replies, verdicts, polls and time steps up to the bound; state = (live queries, peers asked, time)",
            f: pool::q03,
        },
        Check {
            id: "O01",
            level: Level::ModelChecking,
            rule: "all histories of offers, removals, failures and time steps up to the bound; state = contents of the queue",
            f: queue::o01,
        },
        Check {
            id: "O06",
            level: Level::ModelChecking,
            rule: "all histories of insertions, updates, discoveries and removals up to the bound; state = contents of the table",
            f: table::o06,
        },
        Check {
            id: "O07",
            level: Level::Exploration,
            rule: "all tables and batches over the alphabet; distinct = (table, batch, recipients)",
            f: gossip::o07,
        },
        Check {
            id: "M02",
            level: Level::ModelChecking,
            rule: "all histories of reports up to the bound; state = the history, outcome = what the published metrics changed by",
            f: metrics::m02,
        },
    ])
}
