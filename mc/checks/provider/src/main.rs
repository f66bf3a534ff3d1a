//! Checks of the clients of execution and consensus providers, which answer from scripts.

mod consensus;
mod execution;

use std::{cell::RefCell, future::Future, rc::Rc, time::Duration};

use reqwest::{
    fake::Reply,
    header::{HeaderMap, HeaderValue},
};
use tokio::time::Instant;
use url::Url;
use vc::{Check, Level};

/// A request as a provider got it.
#[derive(Clone, Debug)]
pub struct Asked {
    /// Milliseconds since the start of the execution.
    pub at: u64,
    pub url: String,
    pub accept: String,
    pub id: Option<String>,
    pub secret: Option<String>,
    pub body: Vec<u8>,
}

pub type Log = Rc<RefCell<Vec<Asked>>>;

/// Runs on a thread of its own with a clock that jumps to the next event.
pub fn run<T: Send, F: Future<Output = Result<T, String>>>(f: impl FnOnce() -> F + Send) -> Result<T, String> {
    vc::on_thread(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
        let r = rt.block_on(f());
        reqwest::fake::clear();
        r
    })?
}

/// Lets the function answer all requests, which are noted.
pub fn answers(f: impl Fn(&Asked) -> Option<Reply> + 'static) -> Log {
    let log = Log::default();
    let noted = log.clone();
    let start = Instant::now();
    reqwest::fake::set_full(move |c| {
        let header = |k: &str| c.headers.get(k).and_then(|v| v.to_str().ok()).map(str::to_string);
        let a = Asked {
            at: start.elapsed().as_millis() as u64,
            url: c.url.to_string(),
            accept: header("accept").unwrap_or_default(),
            id: header("cf-access-client-id"),
            secret: header("cf-access-client-secret"),
            body: c.body.to_vec(),
        };
        noted.borrow_mut().push(a.clone());
        f(&a)
    });
    log
}

pub fn reply(status: u16, kind: Option<&'static str>, body: Vec<u8>) -> Option<Reply> {
    let headers = kind.map(|k| ("content-type", HeaderValue::from_static(k)));
    Some(Reply { status, headers: HeaderMap::from_iter(headers), body, after: Duration::ZERO })
}

pub fn address(host: &str) -> Url {
    Url::parse(&format!("http://{host}/")).expect("an address")
}

pub fn hex(b: &[u8]) -> String {
    let mut s = "0x".to_string();
    b.iter().for_each(|b| s.push_str(&format!("{b:02x}")));
    s
}

/// Credentials for the hosts that need them.
pub const ID: &str = "somebody";
pub const SECRET: &str = "something";

fn main() {
    std::env::set_var("PANDAOPS_CLIENT_ID", ID);
    std::env::set_var("PANDAOPS_CLIENT_SECRET", SECRET);
    vc::main(&[
        Check {
            id: "R01",
            level: Level::ModelChecking,
            rule: "all requests with all kinds of answers of both providers, all sequences of skipped slots and of events up to the bound; state = the answers given",
            f: consensus::r01,
        },
        Check {
            id: "R02",
            level: Level::ModelChecking,
            rule: "all requests with all kinds of answers of both providers, all sequences of answers up to the retry limit, all sizes of ranges and changes of a batch in the bound; state = the answers given",
            f: execution::r02,
        },
    ]);
}
