//! The generator of a single file.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    io::Write as _,
    rc::Rc,
    sync::{Arc, Mutex},
};

use e2store::e2hs;
use serde_json::Value;
use spec::{chain::Block, hash};
use url::Url;
use vc::{check, check_eq, Ctx, Res};

use crate::{
    cli::SingleGeneratorConfig,
    subcommands::single_generator::single_generator,
    world::{block, block_text, fill, json, receipts_text, reply, result, roots, run, same, template, Roots, FILE, PERIOD},
};

/// First slots of Bellatrix, Capella, Deneb and Electra.
const FORKS: [u64; 4] = [4_636_672, 6_209_536, 8_626_176, 11_649_024];
/// The first archive with execution blocks.
const LOWEST: u64 = 574;
const SITE: &str = "https://mainnet.era.nimbus.team/";

fn fork_at(slot: u64) -> usize {
    FORKS.iter().rposition(|s| *s <= slot).expect("a fork")
}

fn pack(b: &[u8]) -> Vec<u8> {
    let mut e = snap::write::FrameEncoder::new(vec![]);
    e.write_all(b).expect("packing");
    e.into_inner().map_err(|_| "frame").expect("packing")
}

fn encode(items: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut out = vec![];
    for (kind, value) in items {
        out.extend(kind.to_be_bytes());
        out.extend((value.len() as u32).to_le_bytes());
        out.extend([0, 0]);
        out.extend(value);
    }
    out
}

/// The archive of an era with its blocks.
fn archive(era: u64, blocks: &[Block], state: Option<&[u8]>) -> Vec<u8> {
    let first = (era - 1) * PERIOD;
    let mut items = vec![(0x6532, vec![])];
    let mut starts = BTreeMap::new();
    let mut at = 8i64;
    for b in blocks {
        let v = pack(&b.signed());
        starts.insert(b.slot - first, at);
        at += 8 + v.len() as i64;
        items.push((0x0100, v));
    }
    let Some(state) = state else { return encode(&items) };
    let v = pack(state);
    at += 8 + v.len() as i64;
    items.push((0x0200, v));
    let mut v = first.to_le_bytes().to_vec();
    for p in 0..PERIOD {
        v.extend((starts.get(&p).copied().unwrap_or(0) - at).to_le_bytes());
    }
    v.extend(PERIOD.to_le_bytes());
    items.push((0x6932, v));
    let mut v = (first + PERIOD).to_le_bytes().to_vec();
    v.extend((-1i64).to_le_bytes());
    v.extend(1u64.to_le_bytes());
    items.push((0x6932, v));
    encode(&items)
}

/// States at the end of an era, which are slow to make.
fn states(era: u64) -> Arc<(Vec<u8>, usize)> {
    static ALL: Mutex<Option<HashMap<u64, Arc<(Vec<u8>, usize)>>>> = Mutex::new(None);
    let mut all = ALL.lock().unwrap_or_else(|e| e.into_inner());
    all.get_or_insert_with(HashMap::new).entry(era).or_insert_with(|| Arc::new(template(fork_at(era * PERIOD), era * PERIOD))).clone()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
    Nothing,
    /// Receipts of another block.
    Receipts,
    /// A block of the chain is left out of its archive.
    Left,
    /// A block is not among the roots of its era.
    Root,
    /// The last summary is another.
    Summary,
    /// An archive that is used ends early.
    Short,
    /// An archive that is used cannot be had.
    Gone,
    /// The provider has only blocks before the file.
    Ahead,
}
use Fault::*;
const FAULTS: [Fault; 7] = [Receipts, Left, Root, Summary, Short, Gone, Ahead];

struct Case {
    /// The era with the first block of the file.
    era: u64,
    /// How many blocks this and the next eras have, and how many are before the file.
    sizes: Vec<usize>,
    before: usize,
    /// Slots skipped at the start of each era.
    late: u64,
    /// Whether the blocks of an era follow each other or are far apart.
    spread: bool,
    fault: (Fault, usize),
}

const SPREAD: [u64; 5] = [0, 17, 4096, 8180, 8186];

fn follow(ch: &mut vc::Ch, c: &Case) -> Res {
    let first = 17_100_000 + (c.era - 759) * 7200 / FILE * FILE;
    let index = first / FILE;
    let mut eras: Vec<(u64, Vec<Block>)> = vec![];
    let mut number = first - c.before as u64;
    let mut parent = hash(7);
    for (k, n) in c.sizes.iter().enumerate() {
        let era = c.era + k as u64;
        let mut l = vec![];
        for i in 0..*n {
            let slot = (era - 1) * PERIOD + c.late + if c.spread { SPREAD[i] } else { i as u64 };
            l.push(block(fork_at(slot), slot, number, parent));
            parent = l[i].object().root();
            number += 1;
        }
        eras.push((era, l));
    }
    let all: Vec<Block> = eras.iter().flat_map(|e| e.1.clone()).collect();
    let target = first + c.fault.1 as u64;
    let is = |f: Fault, n: u64| c.fault.0 == f && n == target;
    let tables: Vec<(u64, Roots)> = eras
        .iter()
        .map(|(e, l)| ((e - 1) * PERIOD, roots((e - 1) * PERIOD, l.iter().filter(|b| !is(Root, b.payload.number)))))
        .collect();
    let home = eras.iter().position(|e| e.1.iter().any(|b| b.payload.number == target));
    // The archives, with the summaries of all eras so far.
    let mut files: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    for (k, (era, l)) in eras.iter().enumerate() {
        // No more than three archives are read.
        if k > 3 {
            files.insert(*era, archive(*era, l, None));
            continue;
        }
        let t = states(*era);
        let mut s = fill(&t, era * PERIOD, &tables[k].1.all, tables[k].1.tree.root());
        for j in 0..k {
            let at = t.1 - 64 * (k - j);
            s[at..at + 32].copy_from_slice(&tables[j].1.tree.root());
        }
        if c.fault.0 == Summary && home.is_some_and(|h| h <= k) {
            let at = t.1 - 64 * (k - home.unwrap_or(0));
            s[at] ^= 1;
        }
        let mut l = l.clone();
        if l.len() > 1 {
            l.retain(|b| !is(Left, b.payload.number));
        }
        let mut f = archive(*era, &l, Some(&s));
        if c.fault.0 == Short && home == Some(k) {
            f.truncate(f.len() - 9);
        }
        files.insert(*era, f);
    }
    let left = c.fault.0 == Left && home.is_some_and(|h| eras[h].1.len() > 1);
    let top = c.era + c.sizes.len() as u64 - 1;
    let latest = if c.fault.0 == Ahead { first - 1 } else { number + 100 };
    let gone = if c.fault.0 == Gone { home.map(|h| eras[h].0) } else { None };
    // What comes out, if the blocks are there in at most three archives.
    let want: Option<Vec<Block>> = all.get(c.before..c.before + FILE as usize).map(|l| l.to_vec());
    let want = want.filter(|l| l.last().is_some_and(|b| b.slot / PERIOD + 1 - c.era < 3));
    let bad = match c.fault.0 {
        Nothing => false,
        Left => left,
        _ => true,
    };
    let wrong = c.fault.1;
    let fault = c.fault.0;
    let lowest_number = move |era: u64, top_era: u64, first: u64| first - 3 * (top_era - era) - 20;
    let (low, base) = (c.era, first);
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let place = dir.path().to_path_buf();
    let (ok, written, asked) = run(|| async move {
        let page: String = (0..=top).map(|e| format!("<a href=\"mainnet-{e:05}-{e:08x}.era\">x</a>")).collect();
        let page = format!("<html><body>{page}</body></html>");
        let asked: Rc<RefCell<Vec<String>>> = Rc::default();
        let noted = asked.clone();
        let small: RefCell<BTreeMap<u64, Vec<u8>>> = RefCell::default();
        reqwest::fake::set_full(move |call| {
            if call.url == SITE {
                return reply(200, "text/html", page.clone().into_bytes());
            }
            if let Some(name) = call.url.strip_prefix(SITE) {
                let era: u64 = name.strip_prefix("mainnet-")?.get(..5)?.parse().ok()?;
                let range = call.headers.get("range").and_then(|v| v.to_str().ok()).map(str::to_string);
                noted.borrow_mut().push(format!("{era} {range:?}"));
                if noted.borrow().len() > 1000 || gone == Some(era) || !(LOWEST..=top).contains(&era) {
                    return None;
                }
                let mut small = small.borrow_mut();
                let f = match files.get(&era) {
                    Some(f) => f,
                    // Before those of the case: archives with some first block.
                    _ => small.entry(era).or_insert_with(|| {
                        let slot = (era - 1) * PERIOD;
                        archive(era, &[block(fork_at(slot), slot, lowest_number(era, low, base), [0; 32])], None)
                    }),
                };
                let body = match range {
                    None => f.clone(),
                    Some(r) => {
                        let (a, b) = r.strip_prefix("bytes=")?.split_once('-')?;
                        let (a, b): (usize, usize) = (a.parse().ok()?, b.parse().ok()?);
                        f[a.min(f.len())..(b + 1).min(f.len())].to_vec()
                    }
                };
                return reply(200, "application/octet-stream", body);
            }
            let v: Value = serde_json::from_slice(call.body).ok()?;
            let one = |v: &Value| -> Option<String> {
                let first = v["params"].get(0).and_then(|p| p.as_str()).unwrap_or_default().to_string();
                let n = || u64::from_str_radix(first.strip_prefix("0x")?, 16).ok();
                let r = match v["method"].as_str()? {
                    "web3_clientVersion" => "\"one\"".to_string(),
                    "eth_getBlockByNumber" if first == "latest" => block_text(&block(3, 12_000_000, latest, [0; 32])),
                    "eth_getBlockReceipts" => receipts_text(n()? + u64::from(fault == Receipts && n()? == base + wrong as u64)),
                    _ => return None,
                };
                Some(result(&v["id"], &r))
            };
            match &v {
                Value::Array(l) => json(format!("[{}]", l.iter().map(one).collect::<Option<Vec<_>>>()?.join(","))),
                v => json(one(v)?),
            }
        });
        let config = SingleGeneratorConfig {
            target_dir: place.clone(),
            index,
            portal_accumulator_path: place.join("accumulators"),
            el_provider: Url::parse("http://execution/").expect("an address"),
        };
        let ok = single_generator(config).await;
        let l = asked.borrow().clone();
        Ok((ok.map_err(|e| format!("{e:#}")), e2hs::written(), l))
    })?;
    check!(asked.len() <= 1000, "archives are asked for without end");
    ch.state(&asked);
    ch.outcome(&(ok.is_ok(), written.len(), want.is_some()));
    let by: Vec<(u64, &Roots)> = tables.iter().map(|(s, r)| (*s, r)).collect();
    match want.filter(|_| !bad) {
        None => {
            check!(ok.is_err(), "a file although there is {:?} of block {}", c.fault.0, c.fault.1);
            check_eq!(written.len(), 0, "archives finished");
        }
        Some(l) => {
            check!(ok.is_ok(), "no file: {ok:?}, after {asked:?}");
            check_eq!(written.len(), 1, "archives finished");
            check_eq!(written[0].index, index, "index of the archive");
            check!(written[0].path.parent() == Some(dir.path()), "the file is at {:?}", written[0].path);
            same(&written[0], &l, &by)?;
        }
    }
    Ok(())
}

pub fn g03(ctx: &Ctx) {
    let eras: &[u64] = ctx.b(&[1053, 1421][..], &[760, 765, 1053, 1421, 1430][..]);
    ctx.explore("places of a file", |ch| {
        let era = *ch.choose(eras);
        let a = 1 + ch.pick(ctx.b(4, 5));
        let before = ch.pick(a);
        let b = 1 + ch.pick(ctx.b(2, 4));
        let mut sizes = vec![a, b, *ch.choose(ctx.b(&[1, 3][..], &[1, 2, 3, 4][..]))];
        // Archives after those, or fewer.
        match ch.pick(3) {
            0 => {}
            1 => sizes.extend([2, 1]),
            _ => drop(sizes.pop()),
        }
        let late = *ch.choose(&[0, 3]);
        ch.note(|| format!("era {era}, blocks {sizes:?}, {before} before, late {late}"));
        follow(ch, &Case { era, sizes, before, late, spread: late == 0, fault: (Nothing, 0) })
    });
    ctx.explore("faults", |ch| {
        let era = *ch.choose(eras);
        let sizes = ch.choose(&[vec![2, 2, 2, 2], vec![5, 1], vec![3, 5]]).clone();
        let fault = (*ch.choose(&FAULTS), ch.pick(4));
        ch.note(|| format!("era {era}, blocks {sizes:?}, {fault:?}"));
        follow(ch, &Case { era, sizes, before: 1, late: 0, spread: false, fault })
    });
}
