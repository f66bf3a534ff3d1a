//! The generator at the head of the chain and its bucket.
use std::{cell::RefCell, rc::Rc, sync::OnceLock, time::Duration};

use aws_sdk_s3::fake::{Call, Reply as Answer};
use e2store::e2hs;
use serde_json::Value;
use spec::{chain::Block, hash, merkle::Root};
use tokio::time::Instant;
use url::Url;
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{
    cli::HeadGeneratorConfig,
    subcommands::head_generator::HeadGenerator,
    world::{block, block_text, fill, filler, hex, json, receipts_text, reply, result, roots, run, same, ssz, template, Roots, CAPELLA_SLOT, FILE, PERIOD},
};

/// The first file to be made.
const INDEX: u64 = 5_700_001;
const FIRST: u64 = INDEX * FILE;
/// Two periods and the start of a third.
const STARTS: [u64; 3] = [CAPELLA_SLOT + 700 * PERIOD, CAPELLA_SLOT + 701 * PERIOD, CAPELLA_SLOT + 702 * PERIOD];
/// Seconds of an epoch.
const EPOCH: u64 = 384;

fn config() -> HeadGeneratorConfig {
    HeadGeneratorConfig {
        el_provider: Url::parse("http://execution/").expect("an address"),
        cl_provider: Url::parse("http://consensus/").expect("an address"),
        request_timeout: 20,
        bucket_name: "the-bucket".into(),
    }
}

fn templates() -> &'static [(Vec<u8>, usize); 2] {
    static T: OnceLock<[(Vec<u8>, usize); 2]> = OnceLock::new();
    T.get_or_init(|| [template(3, STARTS[1]), template(3, STARTS[2])])
}

/// What is wrong, and with which block.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    None,
    /// Receipts of another block.
    Receipts,
    /// No receipts, ever.
    NoReceipts,
    /// The number jumps.
    Number,
    /// The block says it has another hash.
    Hash,
    /// The block is not among the roots of its period.
    Root,
    /// The provider does not have the block.
    Missing,
}
const FAULTS: [Fault; 6] = [Fault::Receipts, Fault::NoReceipts, Fault::Number, Fault::Hash, Fault::Root, Fault::Missing];

/// A chain as the providers show it.
#[derive(Clone)]
struct Chain {
    /// From the first block of the first file on, consecutive.
    blocks: Vec<Block>,
    /// The first block of the third period.
    last: Block,
    /// When the third period becomes final, if ever.
    turn: Option<u64>,
    /// Whether there are states for slots without blocks.
    lenient: bool,
    fault: (Fault, usize),
}

struct Layout {
    /// Blocks in the first period and in all.
    early: usize,
    all: usize,
    /// Where slots are skipped and how many: before a block; `Before` puts them at the end of the period.
    gap: (usize, u64, bool),
    /// Skipped slots at the start of the third period.
    late: u64,
}

fn chain(l: &Layout, fault: (Fault, usize)) -> Chain {
    let mut slots = vec![0; l.all];
    let (at, skipped, end) = l.gap;
    let mut s = STARTS[1];
    for k in l.early..l.all {
        if k == at && !(end && k == l.early) {
            s += skipped;
        }
        slots[k] = s;
        s += 1;
    }
    let mut s = STARTS[1];
    if at == l.early && end {
        s -= skipped;
    }
    for k in (0..l.early).rev() {
        s -= 1;
        slots[k] = s;
        if k == at {
            s -= skipped;
        }
    }
    let mut parent = hash(77);
    let mut blocks = vec![];
    for (k, s) in slots.iter().enumerate() {
        let jump = u64::from(fault.0 == Fault::Number && k >= fault.1);
        let mut b = block(3, *s, FIRST + k as u64 + jump, parent);
        if fault == (Fault::Hash, k) {
            b.payload.hash = hash(78);
        }
        parent = b.object().root();
        blocks.push(b);
    }
    let last = block(3, STARTS[2] + l.late, FIRST + l.all as u64, parent);
    Chain { blocks, last, turn: None, lenient: true, fault }
}

impl Chain {
    fn roots(&self) -> [Roots; 2] {
        let wrong = |k: usize| self.fault == (Fault::Root, k);
        [0, 1].map(|p| roots(STARTS[p], self.blocks.iter().enumerate().filter(|(k, _)| !wrong(*k)).map(|(_, b)| b)))
    }

    /// Lets the providers tell about this chain.
    fn serve(&self, roots: &[Roots; 2]) {
        let c = self.clone();
        let start = Instant::now();
        let all: [Vec<Root>; 2] = [0, 1].map(|p| roots[p].all.clone());
        let tops = [roots[0].tree.root(), roots[1].tree.root()];
        let by_root: Vec<(String, usize)> = c.blocks.iter().enumerate().map(|(k, b)| (hex(&b.object().root()), k)).collect();
        reqwest::fake::set_full(move |call| {
            let now = start.elapsed().as_secs();
            if call.url.starts_with("http://execution/") {
                let v: Value = serde_json::from_slice(call.body).ok()?;
                let number = || u64::from_str_radix(v["params"][0].as_str()?.strip_prefix("0x")?, 16).ok();
                let r = match v["method"].as_str()? {
                    "web3_clientVersion" => "\"one\"".into(),
                    "eth_getBlockByNumber" => {
                        let n = number()?;
                        match c.blocks.iter().find(|b| b.payload.number == n) {
                            Some(b) => block_text(b),
                            None if n == c.last.payload.number => block_text(&c.last),
                            None => "null".into(),
                        }
                    }
                    "eth_getBlockReceipts" => {
                        let n = number()?;
                        match (n.wrapping_sub(FIRST) == c.fault.1 as u64, c.fault.0) {
                            (true, Fault::Receipts) => receipts_text(n + 1),
                            (true, Fault::NoReceipts) => "null".into(),
                            _ => receipts_text(n),
                        }
                    }
                    _ => return None,
                };
                return json(result(&v["id"], &r));
            }
            let path = call.url.strip_prefix("http://consensus")?;
            let none = || reply(404, "application/json", b"{\"code\":404,\"message\":\"not found\"}".to_vec());
            let at = |s: u64| {
                let k = c.blocks.iter().position(|b| b.slot == s);
                if k.is_some_and(|k| c.fault == (Fault::Missing, k)) {
                    return None;
                }
                k.map(|k| &c.blocks[k]).or((c.last.slot == s).then_some(&c.last))
            };
            if path == "/eth/v1/node/version" {
                return json("{\"data\":{\"version\":\"one\"}}".into());
            }
            if let Some(id) = path.strip_prefix("/eth/v2/beacon/blocks/") {
                let b = if id == "finalized" {
                    let second = c.blocks.last().filter(|b| b.slot >= STARTS[1]);
                    Some(if c.turn.is_some_and(|t| now >= t) { &c.last } else { second.unwrap_or(&c.last) })
                } else if id.starts_with("0x") {
                    by_root.iter().find(|r| r.0 == id).map(|r| &c.blocks[r.1])
                } else {
                    at(id.parse().ok()?)
                };
                return b.map_or_else(none, |b| ssz(b.signed()));
            }
            if let Some(id) = path.strip_prefix("/eth/v2/debug/beacon/states/") {
                let slot: u64 = id.parse().ok()?;
                let p = ((slot.checked_sub(STARTS[1])?) / PERIOD) as usize;
                if p > 1 || (p == 1 && c.turn.is_none_or(|t| now < t)) || (!c.lenient && at(slot).is_none()) {
                    return none();
                }
                // Slots since the start of the period have taken the places of those before.
                let mut r = all[p].clone();
                for s in 0..(slot % PERIOD) as usize {
                    r[s] = filler(99, s);
                }
                return ssz(fill(&templates()[p], slot, &r, tops[p]));
            }
            none()
        });
    }
}

/// A file that was completed in the bucket.
#[derive(Clone, Debug, PartialEq)]
struct File {
    at: u64,
    key: String,
    content: Vec<u8>,
}

#[derive(Default)]
struct Bucket {
    calls: Vec<Call>,
    files: Vec<File>,
    open: Vec<(String, String, Vec<(i32, Vec<u8>)>)>,
    wrong: Vec<String>,
}

/// A bucket that already has the file before the first; `fails` tells which calls fail.
fn bucket(fails: impl Fn(usize, &Call) -> bool + 'static) -> Rc<RefCell<Bucket>> {
    let all = Rc::new(RefCell::new(Bucket::default()));
    let b = all.clone();
    let start = Instant::now();
    aws_sdk_s3::fake::set(move |c| {
        let mut b = b.borrow_mut();
        let n = b.calls.len();
        b.calls.push(match &c {
            Call::Part { bucket, key, upload, number, .. } => {
                Call::Part { bucket: bucket.clone(), key: key.clone(), upload: upload.clone(), number: *number, body: vec![] }
            }
            c => c.clone(),
        });
        if fails(n, &c) {
            return None;
        }
        let name = match &c {
            Call::List { bucket, .. } | Call::Create { bucket, .. } | Call::Part { bucket, .. } | Call::Complete { bucket, .. } => bucket,
        };
        if name.as_deref() != Some("the-bucket") {
            b.wrong.push(format!("bucket {name:?}"));
        }
        match c {
            Call::List { .. } => Some(Answer { keys: vec![Some(format!("mainnet-{:05}-0badcafe.e2hs", INDEX - 1))], truncated: Some(false), ..Default::default() }),
            Call::Create { key, .. } => {
                let id = format!("upload-{}", b.open.len());
                b.open.push((id.clone(), key.unwrap_or_default(), vec![]));
                Some(Answer { text: Some(id), ..Default::default() })
            }
            Call::Part { key, upload, number, body, .. } => {
                let Some(o) = b.open.iter_mut().find(|o| Some(&o.0) == upload.as_ref() && Some(&o.1) == key.as_ref()) else {
                    b.wrong.push(format!("part for {key:?} {upload:?}"));
                    return None;
                };
                let n = number.unwrap_or_default();
                o.2.push((n, body));
                Some(Answer { text: Some(format!("tag-{n}")), ..Default::default() })
            }
            Call::Complete { key, upload, parts, .. } => {
                let Some(k) = b.open.iter().position(|o| Some(&o.0) == upload.as_ref() && Some(&o.1) == key.as_ref()) else {
                    b.wrong.push(format!("end of {key:?} {upload:?}"));
                    return None;
                };
                // Parts must be named in ascending order, each with its own tag.
                let numbers: Vec<i32> = parts.iter().map(|p| p.0.unwrap_or_default()).collect();
                if !numbers.windows(2).all(|w| w[0] < w[1]) || numbers.first().is_none_or(|n| *n < 1) {
                    b.wrong.push(format!("parts {numbers:?}"));
                }
                let mut content = vec![];
                for (n, tag) in &parts {
                    let n = n.unwrap_or_default();
                    if tag.as_deref() != Some(&format!("tag-{n}")) {
                        b.wrong.push(format!("tag {tag:?} of part {n}"));
                    }
                    match b.open[k].2.iter().find(|p| p.0 == n) {
                        Some(p) => content.extend(&p.1),
                        None => return None,
                    }
                }
                let file = File { at: start.elapsed().as_secs(), key: key.unwrap_or_default(), content };
                b.files.push(file);
                Some(Answer::default())
            }
        }
    });
    all
}

/// What came of a run.
struct Outcome {
    started: bool,
    ended: Option<bool>,
    files: Vec<File>,
    written: Vec<e2hs::Written>,
    calls: Vec<Call>,
    /// Files that were uploaded and still lie around.
    left: usize,
}

/// Runs the generator against the chain for some seconds.
async fn generate(c: &Chain, roots: &[Roots; 2], seconds: u64, fails: impl Fn(usize, &Call) -> bool + 'static) -> Result<Outcome, String> {
    c.serve(roots);
    let b = bucket(fails);
    let mut o = Outcome { started: false, ended: None, files: vec![], written: vec![], calls: vec![], left: 0 };
    if let Ok(mut g) = HeadGenerator::new(config()).await {
        o.started = true;
        o.ended = tokio::time::timeout(Duration::from_secs(seconds), g.run()).await.ok().map(|r| r.is_ok());
        o.written = e2hs::written();
        o.left = o.written[..b.borrow().files.len().min(o.written.len())].iter().filter(|w| w.path.exists()).count();
    }
    let b = b.borrow();
    check!(b.wrong.is_empty(), "requests to the bucket: {:?}", b.wrong);
    (o.files, o.calls) = (b.files.clone(), b.calls.clone());
    Ok(o)
}

fn key(index: u64) -> String {
    format!("mainnet-{index:05}-{:08x}.e2hs", index * 77)
}

/// Whether the uploaded files are the first `n` of those the chain leads to.
fn judge(o: &Outcome, c: &Chain, roots: &[Roots; 2], size: usize) -> Res {
    let by = [(STARTS[0], &roots[0]), (STARTS[1], &roots[1])];
    for (k, f) in o.files.iter().enumerate() {
        let index = INDEX + k as u64;
        check_eq!(f.key, key(index), "name of file {k}");
        check!(f.content == e2hs::content(index, size), "content of file {k}");
        let Some(w) = o.written.get(k) else { fail!("file {k} was not written") };
        check_eq!(w.index, index, "archive {k}");
        let from = k * FILE as usize;
        let Some(want) = c.blocks.get(from..from + FILE as usize) else { fail!("file {k} has blocks that are not there") };
        same(w, want, &by)?;
    }
    check_eq!(o.left, 0, "uploaded files that were not removed");
    Ok(())
}

pub fn g01(ctx: &Ctx) {
    // The last name of all pages decides, and a page that cannot be read is no end.
    let names = |k: usize| -> Option<String> {
        match k {
            0 => None,
            1 => Some("readme".into()),
            2 => Some("mainnet-x0007-0badcafe.e2hs".into()),
            3 => Some("mainnet-00007-0badcafe-2.e2hs".into()),
            k => Some(format!("mainnet-{:05}-0badcafe.e2hs", INDEX + k as u64)),
        }
    };
    let most = ctx.b(3, 4);
    ctx.explore("listings", |ch| {
        let pages = 1 + ch.pick(most);
        let mut shown: Vec<Answer> = vec![];
        let mut last = None;
        for p in 0..pages {
            let n = ch.pick(3);
            let mut keys = vec![];
            for k in 0..n {
                // All but the last name of a page are plain.
                let name = if k + 1 == n { names([6 + p, 0, 1, 2, 3][ch.pick(if p + 1 == pages { 5 } else { 2 })]) } else { names(4 + p) };
                if name.is_some() {
                    last = name.clone();
                }
                keys.push(name);
            }
            let more = p + 1 < pages;
            shown.push(Answer { keys, truncated: if more { Some(true) } else { *ch.choose(&[Some(false), None]) }, next: more.then(|| format!("page {}", p + 1)), text: None });
        }
        // A request that fails, or a page without the token for the next.
        let bad = ch.pick(pages + 1);
        let lost = pages > 1 && bad == pages && ch.flag();
        if lost {
            shown[pages - 2].next = None;
        }
        let text = format!("{:?} failing at {bad}, token lost {lost}", shown.iter().map(|a| &a.keys).collect::<Vec<_>>());
        ch.note(|| text.clone());
        let want = match last.as_deref().map(|n| n.split('-').collect::<Vec<_>>()) {
            _ if bad < pages || lost => None,
            Some(l) if l.len() == 3 => l[1].parse::<u64>().ok(),
            _ => None,
        };
        let (asked, ok, calls) = run(|| async move {
            let asked: Rc<RefCell<Vec<u64>>> = Rc::default();
            let seen = asked.clone();
            reqwest::fake::set_full(move |call| {
                if call.url.starts_with("http://consensus/") {
                    if call.url.ends_with("version") {
                        return json("{\"data\":{\"version\":\"one\"}}".into());
                    }
                    return ssz(block(3, STARTS[0], FIRST, [0; 32]).signed());
                }
                let v: Value = serde_json::from_slice(call.body).ok()?;
                if v["method"] != "eth_getBlockByNumber" {
                    return json(result(&v["id"], "\"one\""));
                }
                let n = u64::from_str_radix(v["params"][0].as_str()?.strip_prefix("0x")?, 16).ok()?;
                seen.borrow_mut().push(n);
                let mut b = block(3, STARTS[0], n, hash(5));
                b.payload.txs.clear();
                b.seal();
                json(result(&v["id"], &block_text(&b)))
            });
            let calls: Rc<RefCell<Vec<Call>>> = Rc::default();
            let noted = calls.clone();
            aws_sdk_s3::fake::set(move |c| {
                noted.borrow_mut().push(c.clone());
                if noted.borrow().len() > 100 {
                    return None;
                }
                let Call::List { token, .. } = c else { return None };
                let p = match token {
                    None => 0,
                    Some(t) => t.strip_prefix("page ")?.parse().ok()?,
                };
                if p == bad {
                    return None;
                }
                shown.get(p).cloned()
            });
            let ok = HeadGenerator::new(config()).await.is_ok();
            let r = (asked.borrow().clone(), ok, calls.borrow().clone());
            Ok(r)
        })?;
        ch.state(&format!("{calls:?}"));
        ch.outcome(&(want, ok));
        check!(calls.len() <= 100, "the list is asked for without end, with {text}");
        check!(calls.iter().all(|c| matches!(c, Call::List { bucket, .. } if bucket.as_deref() == Some("the-bucket"))), "other requests: {calls:?}");
        match want {
            None => check!(!ok, "a start without a last file, with {text}"),
            Some(n) => {
                check!(ok, "no start after file {n}, with {text}");
                check!(!asked.is_empty() && asked.iter().all(|a| *a / FILE == n + 1), "the next file is {}, but blocks {asked:?} are asked for, with {text}", n + 1);
            }
        }
        Ok(())
    });

    const MB: usize = 1 << 20;
    let l = Layout { early: 4, all: 6, gap: (9, 0, false), late: 0 };
    let sizes: &[usize] = ctx.b(&[0, 17, 100 * MB, 100 * MB + 1], &[0, 17, 4096, 100 * MB - 1, 100 * MB, 100 * MB + 1, 200 * MB, 200 * MB + 3]);
    let c = chain(&l, (Fault::None, 0));
    let r = c.roots();
    ctx.explore("uploads", |ch| {
        let size = *ch.choose(sizes);
        // Which request after the listing fails; the last choices are that none does.
        let parts = size.div_ceil(100 * MB).max(1);
        let bad = ch.pick(parts + 3) + 1;
        let (c, r) = (&c, &r);
        ch.note(|| format!("{size} bytes, request {bad} fails"));
        let o = run(|| async move {
            e2hs::set_size(size);
            generate(c, r, 100, move |n, _| n == bad).await
        })?;
        ch.state(&format!("{:?}", o.calls));
        ch.outcome(&(o.files.len(), o.ended));
        check!(o.started, "the generator does not start");
        judge(&o, c, r, size)?;
        if bad < o.calls.len() {
            check!(o.ended.is_some(), "the generator goes on after a failure");
            check_eq!(o.files.len(), 0, "files after a failed request");
            check_eq!(o.calls.len(), bad + 1, "requests after the one that failed: {:?}", o.calls);
        } else {
            check_eq!(o.files.len(), 1, "files, after {:?}", o.calls);
        }
        let most = o.calls.iter().filter(|c| matches!(c, Call::Part { .. })).count();
        check!(most <= parts, "{most} parts for {size} bytes");
        Ok(())
    });
}

/// When each file can be made: the block after its last is before the first of a final period.
fn due(c: &Chain, early: usize) -> Vec<u64> {
    (1..=c.blocks.len() / FILE as usize).filter_map(|k| if k * FILE as usize <= early { Some(0) } else { c.turn }).collect()
}

fn follow(ch: &mut Ch, l: &Layout, c: &Chain, limit: u64) -> Res {
    let r = c.roots();
    let o = run(|| generate(c, &r, limit, |_, _| false))?;
    let slots: Vec<u64> = c.blocks.iter().map(|b| b.slot).collect();
    ch.state(&format!("{:?} {slots:?} {:?}", o.files.iter().map(|f| (f.at, &f.key)).collect::<Vec<_>>(), o.ended));
    ch.outcome(&(o.files.len(), o.ended));
    if !o.started {
        // The first slot is found with the first two blocks.
        check!(c.fault.0 != Fault::None && c.fault.1 < 2, "the generator does not start");
        check_eq!(o.files.len(), 0, "files without a start");
        return Ok(());
    }
    judge(&o, c, &r, 0)?;
    let due: Vec<u64> = due(c, l.early).into_iter().filter(|t| t + EPOCH < limit).collect();
    for (f, t) in o.files.iter().zip(&due) {
        check!(f.at >= *t, "{} is uploaded after {} s, but can only be proven after {t} s", f.key, f.at);
    }
    check!(o.files.len() <= due.len(), "{} files, but only {} can be proven", o.files.len(), due.len());
    // A period that does not start with a block may not be provable.
    let sure = c.lenient || (c.blocks.iter().any(|b| b.slot == STARTS[1]) && c.last.slot == STARTS[2]);
    let bad = match c.fault.0 {
        Fault::None => due.len(),
        _ => c.fault.1 / FILE as usize,
    };
    if bad < due.len() {
        check!(o.files.len() <= bad, "file {bad} is uploaded although block {} is {:?}", c.fault.1, c.fault.0);
        check!(o.ended.is_some(), "the generator goes on after a file it cannot make");
    }
    if sure {
        check_eq!(o.files.len(), due.len().min(bad), "files uploaded");
        for (f, t) in o.files.iter().zip(&due) {
            check!(f.at <= *t + EPOCH, "{} is uploaded after {} s, but could be after {t} s", f.key, f.at);
        }
        if bad >= due.len() {
            check_eq!(o.ended, None, "the generator ends");
        }
    }
    Ok(())
}

pub fn g02(ctx: &Ctx) {
    let long = ctx.b(6, 9);
    ctx.explore("blocks around the end of a period", |ch| {
        let early = ch.pick(5);
        let all = early + 1 + ch.pick(long - early.min(long - 1));
        let gap = match ch.pick(2) {
            0 => (99, 0, false),
            _ => {
                let at = ch.pick(all);
                (at, *ch.choose(&[1, 5]), at == early && early > 0 && ch.flag())
            }
        };
        let l = Layout { early, all, gap, late: ch.pick(2) as u64 };
        let mut c = chain(&l, (Fault::None, 0));
        let even = c.blocks.iter().any(|b| b.slot == STARTS[1]) && c.last.slot == STARTS[2];
        c.lenient = even || ch.flag();
        c.turn = *ch.choose(ctx.b(&[Some(0), Some(1000)][..], &[None, Some(0), Some(1), Some(EPOCH), Some(EPOCH + 1), Some(1000)][..]));
        ch.note(|| format!("{early} of {all} blocks in the first period, gap {gap:?}, late {}, lenient {}, final at {:?}", l.late, c.lenient, c.turn));
        follow(ch, &l, &c, 3000)
    });
    ctx.explore("faults", |ch| {
        let early = *ch.choose(&[2, 4]);
        let fault = (*ch.choose(&FAULTS), ch.pick(8));
        let l = Layout { early, all: 9, gap: (99, 0, false), late: 0 };
        let mut c = chain(&l, fault);
        c.turn = Some(*ch.choose(&[0, 500]));
        ch.note(|| format!("{early} blocks in the first period, final at {:?}, {fault:?}", c.turn));
        follow(ch, &l, &c, 3000)
    });
    ctx.explore("amounts", |ch| {
        // The second period starts with a block far ahead.
        let n = *ch.choose(&[4u64, 5, 647_999, 648_000, 648_001, 1_000_000]);
        let l = Layout { early: 4, all: 5, gap: (99, 0, false), late: 0 };
        let mut c = chain(&l, (Fault::None, 0));
        c.blocks[4] = block(3, STARTS[1], FIRST + n, c.blocks[4].parent);
        let r = c.roots();
        let o = run(|| generate(&c, &r, 1000, |_, _| false))?;
        ch.note(|| format!("{n} blocks behind"));
        ch.outcome(&(n, o.files.len(), o.ended));
        judge(&o, &c, &r, 0)?;
        check!(o.started, "the generator does not start");
        check_eq!(o.files.len(), usize::from(n < 648_000), "files with {n} blocks to go");
        if n >= 648_000 {
            check_eq!(o.ended, Some(false), "a start with {n} blocks to go");
        }
        Ok(())
    });
}
