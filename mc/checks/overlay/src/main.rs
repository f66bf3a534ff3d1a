//! Checks of the overlay service, run as a whole against scripted peers.

mod answers;
#[path = "../../net/src/peers.rs"]
mod peers;
#[path = "../../net/src/transfers.rs"]
mod transfers;
mod pings;
mod offers;
mod living;
mod searches;
mod slots;
mod world;

use vc::{Check, Level};

fn main() {
    vc::main(&[
        Check {
            id: "O02",
            level: Level::ModelChecking,
            rule: "all offers over keys in every condition, and all histories of offers, transfers and time steps up to the bound; distinct = codes",
            f: offers::o02,
        },
        Check {
            id: "O03",
            level: Level::ModelChecking,
            rule: "all histories of requests, offers and ends of transfers up to the bound; state = slots in use",
            f: slots::o03,
        },
        Check {
            id: "O04",
            level: Level::Exploration,
            rule: "all requests over contents, tables, requesters and permits in the bound; distinct = (request, answer)",
            f: answers::o04,
        },
        Check {
            id: "O05",
            level: Level::Exploration,
            rule: "all tables, requesters and lists of distances in the bound; distinct = (nodes named, nodes known)",
            f: answers::o05,
        },
        Check {
            id: "O08",
            level: Level::ModelChecking,
            rule: "all batches, arrivals and answers of the other offering peer in the bound; distinct = (stored, fetched elsewhere, offered)",
            f: offers::o08,
        },
        Check {
            id: "O09",
            level: Level::ModelChecking,
            rule: "all histories of pings, pongs and radius changes up to the bound; state = (radius, extension used, record known)",
            f: pings::o09,
        },
        Check {
            id: "O10",
            level: Level::ModelChecking,
            rule: "all offers, answers and ends of the transfer in the bound; distinct = (kind of result, items)",
            f: slots::o10,
        },
        Check {
            id: "O11",
            level: Level::ModelChecking,
            rule: "all answers of one peer and ends of the transfer; distinct = (kind of result, answer)",
            f: searches::o11,
        },
        Check {
            id: "O12",
            level: Level::ModelChecking,
            rule: "all histories of requests, answers, failures and pings up to the bound; state = standing of the peers",
            f: living::o12,
        },
        Check {
            id: "Q04",
            level: Level::ModelChecking,
            rule: "all assignments of behaviours to the peers; distinct = (result, behaviours)",
            f: searches::q04,
        },
        Check {
            id: "Q05",
            level: Level::ModelChecking,
            rule: "all standings of the wanted node and answers of the peers; distinct = result",
            f: searches::q05,
        },
    ])
}
