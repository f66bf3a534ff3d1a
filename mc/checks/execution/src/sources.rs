//! X07: where blocks come from. X08: traces, and the command line.
use std::{collections::BTreeMap, fs, sync::OnceLock};

use alloy::primitives::{Address, B256};
use clap::Parser as _;
use ethportal_api::consensus::{beacon_block::SignedBeaconBlock, fork::ForkName};
use spec::{chain, execution::withdrawal_fields, trie::keccak};
use trin_execution::{
    cli::{ExportStateConfig, ImportStateConfig, TrinExecutionConfig, TrinExecutionSubCommands},
    config::StateConfig,
    e2hs::{beacon::ProcessBeaconBlock, manager::E2HSManager, types::ProcessedBlock, utils::process_e2hs_file},
    execution::TrinExecution,
    types::block_to_trace::BlockToTrace,
};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{
    blocks::{archive, chain as run_chain, header, serve, Block, Hashes, Plan, Step::*, Tx, EPOCH},
    commits::Dir,
    executor::before,
    model::address,
    runs::{block_on, plans, prepared},
};

/// Blocks 0 to 16386: two whole archives, and a short one.
const END: u64 = 2 * EPOCH + 3;
fn block(number: u64) -> Block {
    let txs = if number % EPOCH < 2 || number % EPOCH > EPOCH - 3 {
        vec![Tx { kind: 0, who: number as u8, steps: vec![Credit(address(1), number)] }, Tx { kind: 0, who: number as u8 ^ 0x80, steps: vec![] }]
    } else {
        vec![]
    };
    let plan = Plan { number, txs, beneficiary: address(number as u8), ..Default::default() };
    Block { header: header(&plan, B256::from(keccak(&number.to_le_bytes())), 0), plan }
}
fn files() -> &'static [Vec<u8>; 3] {
    static FILES: OnceLock<[Vec<u8>; 3]> = OnceLock::new();
    FILES.get_or_init(|| [0, 1, 2].map(|e| archive(&(e * EPOCH..END.min((e + 1) * EPOCH)).map(block).collect::<Vec<_>>())))
}

/// A block to be run is the one in the archive.
fn is(got: &ProcessedBlock, want: &Block) -> Res {
    check_eq!(got.header, want.header, "header of block {}", want.plan.number);
    let senders: Vec<Address> = got.transactions.iter().map(|t| t.sender_address).collect();
    check_eq!(senders, want.plan.txs.iter().map(|t| t.sender()).collect::<Vec<_>>(), "senders in block {}", want.plan.number);
    let txs: Vec<Vec<u8>> = got.transactions.iter().map(|t| encoded(&t.transaction)).collect();
    check_eq!(txs, want.plan.txs.iter().map(|t| t.encode()).collect::<Vec<_>>(), "transactions of block {}", want.plan.number);
    let uncles: Vec<(Address, u64)> = got.uncles.iter().flatten().map(|u| (u.beneficiary, want.plan.number - u.number)).collect();
    check_eq!(uncles, want.plan.uncles, "uncles of block {}", want.plan.number);
    let paid: Vec<(Address, u64)> = got.withdrawals.iter().flatten().map(|w| (w.address, w.amount)).collect();
    check_eq!(paid, want.plan.withdrawals, "withdrawals of block {}", want.plan.number);
    Ok(())
}
fn encoded(tx: &alloy::consensus::TxEnvelope) -> Vec<u8> {
    use alloy::eips::eip2718::Encodable2718;
    tx.encoded_2718()
}

fn managed(i: u64, starts: &[u64], ch: &mut Ch) -> Res {
    let (start, missing) = (starts[i as usize / 4], i % 4);
    let served: BTreeMap<u64, Vec<u8>> = (0..3).filter(|e| *e + 1 != missing).map(|e| (e, files()[e as usize].clone())).collect();
    let there = |n: u64| n < END && served.contains_key(&(n / EPOCH));
    let known = served.clone();
    serve(3, known, 0);
    ch.state(&(start, missing));
    block_on(async {
        let mut m = E2HSManager::new(start).await.map_err(|e| e.to_string())?;
        check!(m.last_fetched_block().await.is_err(), "a block before any was asked for");
        for n in start..start + 4 {
            check_eq!(m.next_block_number(), n, "the next block");
            match m.get_next_block().await {
                Ok(b) => {
                    check!(there(n), "block {n} is not in the archives");
                    is(b, &block(n))?;
                }
                Err(e) => {
                    check!(!there(n), "block {n}: {e}");
                    check_eq!(m.next_block_number(), n, "the next block after a failure");
                    ch.outcome(&(n - start));
                    return Ok(());
                }
            }
            is(m.last_fetched_block().await.map_err(|e| e.to_string())?, &block(n))?;
            ch.eval();
        }
        ch.outcome(&4);
        Ok(())
    })
}

/// One block of each kind in an archive.
fn read(ch: &mut Ch) -> Res {
    let number = *ch.choose(&[1, 4_370_000, 12_965_000, 15_537_394, 17_034_870, 19_426_587, 20_000_000]);
    let kinds = match number {
        19_426_587.. => 4,
        12_965_000.. => 3,
        _ => 1,
    };
    let txs = (0..ch.pick(5)).map(|i| Tx { kind: (i % kinds) as u8, who: (i as u8 + 1) * 17, steps: vec![Touch(address(i as u8))] }).collect();
    let uncles = (0..if number < 15_537_394 && number > 8 { ch.pick(3) } else { 0 }).map(|i| (address(i as u8), 1 + i as u64)).collect();
    let withdrawals = (0..if number >= 17_034_870 { ch.pick(4) } else { 0 }).map(|i| (address(i as u8), i as u64 * 1000)).collect();
    let plan = Plan { number, txs, uncles, withdrawals, beneficiary: address(1), beacon_root: (number >= 19_426_587).then(|| B256::repeat_byte(1)) };
    ch.state(&plan);
    let b = Block { header: header(&plan, B256::repeat_byte(9), 5), plan };
    let got = process_e2hs_file(&archive(&[b.clone(), Block { plan: Plan { number: number + 1, ..b.plan.clone() }, header: b.header.clone() }])).map_err(|e| e.to_string())?;
    check_eq!((got.index, got.blocks.len()), (number / EPOCH, 2), "the archive");
    is(&got.blocks[0], &b)?;
    ch.eval();
    Ok(())
}

/// Blocks of the beacon chain.
fn beacon(ch: &mut Ch) -> Res {
    let fork = ch.pick(4);
    let mut b = chain::Block::new(fork, 1000, 20_000_000, 5);
    let kinds = if fork >= 2 { 4 } else { 3 };
    let txs: Vec<Tx> = (0..ch.pick(5)).map(|i| Tx { kind: (i % kinds) as u8, who: (i as u8 + 1) * 17, steps: vec![Touch(address(i as u8))] }).collect();
    b.payload.txs = txs.iter().map(|t| t.encode()).collect();
    if fork >= 1 {
        b.payload.withdrawals = (0..ch.pick(3)).map(|i| 7 + 3 * i as u64).collect();
    }
    if fork >= 3 {
        b.requests = chain::Requests([ch.pick(2) as u8, ch.pick(2) as u8, ch.pick(2) as u8]);
    }
    let bad = ch.pick(3);
    match bad {
        1 => b.payload.txs.push(vec![0x7f, 1, 2]),
        2 => b.payload.txs.push(vec![]),
        _ => {}
    }
    b.seal();
    ch.state(&(fork, &b.payload.txs, &b.payload.withdrawals, b.requests.0, bad));
    let name = [ForkName::Bellatrix, ForkName::Capella, ForkName::Deneb, ForkName::Electra][fork];
    let raw = SignedBeaconBlock::from_ssz_bytes(&b.signed(), name).map_err(|e| format!("{e:?}"))?;
    let got = vc::no_panic(|| raw.process_beacon_block())?;
    if bad > 0 {
        check!(got.is_err(), "a block with a transaction that is none");
        return Ok(());
    }
    let got = got.map_err(|e| e.to_string())?;
    check_eq!(spec::short(&alloy_rlp::encode(&got.header)), spec::short(&b.header()), "header");
    check_eq!(got.header.hash_slow(), B256::from(b.payload.hash), "hash");
    let senders: Vec<Address> = got.transactions.iter().map(|t| t.sender_address).collect();
    check_eq!(senders, txs.iter().map(|t| t.sender()).collect::<Vec<_>>(), "senders");
    check_eq!(got.transactions.iter().map(|t| encoded(&t.transaction)).collect::<Vec<_>>(), b.payload.txs, "transactions");
    check!(got.uncles.iter().flatten().count() == 0, "uncles after the merge");
    let paid: Vec<_> = got.withdrawals.iter().flatten().map(|w| (w.index, w.validator_index, w.address.to_vec(), w.amount)).collect();
    check_eq!(paid, b.payload.withdrawals.iter().map(|i| withdrawal_fields(*i)).collect::<Vec<_>>(), "withdrawals");
    ch.eval();
    Ok(())
}

pub fn x07(ctx: &Ctx) {
    let all = [8190, 8192, 0, 16385, 8191, 8193, 1, 16381, 16384, 16386, 16387, 5000];
    let n = all.len() as u64;
    files();
    ctx.range("blocks one after another", n * 4, |i, ch| managed(i, &all, ch));
    ctx.explore("blocks of archives", read);
    ctx.explore("blocks of the beacon chain", beacon);
}

// ---------------------------------------------------------------- traces

fn wanted(ch: &mut Ch, base: u64) -> (BlockToTrace, Vec<u64>) {
    match ch.pick(5) {
        0 => (BlockToTrace::None, vec![]),
        1 => (BlockToTrace::All, vec![base, base + 1, base + 2]),
        k => (BlockToTrace::Block(base + k as u64 - 2), vec![base + k as u64 - 2]),
    }
}

fn traced(ch: &mut Ch) -> Res {
    let epoch = 400;
    let base = epoch * EPOCH;
    let dir = Dir::new();
    let first = before(base);
    let mut hashes: Hashes = prepared(&dir, epoch, &first)?;
    let (blocks, states) = run_chain(&plans(epoch, 3), &first, &mut hashes);
    serve(epoch + 1, BTreeMap::from([(epoch, archive(&blocks))]), 0);
    let (block_to_trace, mut traced) = wanted(ch, base);
    let upto = ch.pick(3);
    // Something is in the way.
    let blocked = ch.flag();
    traced.retain(|n| *n <= base + upto as u64);
    ch.state(&(&traced, upto, blocked));
    let traces = dir.path().join("evm_traces");
    if blocked {
        fs::write(&traces, b"no directory").unwrap();
    }
    let config = StateConfig { cache_contract_changes: false, block_to_trace };
    let root = block_on(async {
        let mut x = TrinExecution::new(dir.path(), config).await.map_err(|e| e.to_string())?;
        x.process_range_of_blocks(base + upto as u64, None).await.map_err(|e| format!("a run with traces: {e}"))?;
        x.get_root().map_err(|e| e.to_string())
    })?;
    check_eq!(root, states[upto].root(), "the root of a run with traces");
    ch.eval();
    if blocked {
        return Ok(());
    }
    let mut want = BTreeMap::new();
    for b in blocks.iter().filter(|b| traced.contains(&b.plan.number)) {
        for t in &b.plan.txs {
            let raw = t.encode();
            let data: Vec<u8> = t.data();
            let name = format!("block_{}/tx_{}.json", b.plan.number, B256::from(keccak(&raw)));
            want.insert(name, format!("{{\"gasUsed\":{},\"input\":\"{}\"}}\n", 1 + t.steps.len(), alloy::primitives::Bytes::from(data)));
        }
    }
    let mut got = BTreeMap::new();
    for block in fs::read_dir(&traces).into_iter().flatten() {
        let block = block.unwrap();
        for f in fs::read_dir(block.path()).unwrap() {
            let f = f.unwrap();
            let name = format!("{}/{}", block.file_name().to_string_lossy(), f.file_name().to_string_lossy());
            got.insert(name, fs::read_to_string(f.path()).unwrap());
        }
    }
    ch.outcome(&got.len());
    check_eq!(got, want, "the traces");
    Ok(())
}

/// Words for what to trace.
fn words(ch: &mut Ch) -> Res {
    let kind = *ch.choose(&["none", "all", "block", "None", "", "al", "blocks"]);
    let sep = *ch.choose(&["", ":", "::", " "]);
    let number = *ch.choose(&["", "0", "7", "18446744073709551615", "18446744073709551616", "-1", "x", "1:2", "0x10"]);
    let text = format!("{kind}{sep}{number}");
    ch.state(&text);
    let want = match text.as_str() {
        "none" => Some(BlockToTrace::None),
        "all" => Some(BlockToTrace::All),
        _ if kind == "block" && sep == ":" => number.parse().ok().map(BlockToTrace::Block),
        _ => None,
    };
    check_eq!(text.parse::<BlockToTrace>().ok(), want, "{text:?}");
    let cli = TrinExecutionConfig::try_parse_from(["x", &format!("--block-to-trace={text}")]);
    check_eq!(cli.ok().map(|c| c.block_to_trace), want, "--block-to-trace={text}");
    ch.outcome(&want.is_some());
    if let Some(w) = want {
        for n in [0, 6, 7, 8, u64::MAX] {
            let yes = match &w {
                BlockToTrace::None => false,
                BlockToTrace::All => true,
                BlockToTrace::Block(b) => *b == n,
            };
            check_eq!(w.should_trace(n), yes, "block {n} with {text:?}");
        }
    }
    Ok(())
}

/// Command lines.
fn lines(ch: &mut Ch) -> Res {
    let mut args = vec!["trin-execution"];
    let dir = ch.flag();
    if dir {
        args.extend(["--data-dir", "/nowhere/x"]);
    }
    let ephemeral = ch.pick(3);
    match ephemeral {
        1 => args.push("--ephemeral"),
        2 => args.push("-e"),
        _ => {}
    }
    let last = *ch.choose(&[None, Some("0"), Some("20868946"), Some("18446744073709551615"), Some("-1"), Some("many")]);
    if let Some(l) = last {
        args.extend(["--last-block", l]);
    }
    let trace = *ch.choose(&[None, Some("all"), Some("block:5"), Some("block:")]);
    if let Some(t) = trace {
        args.extend(["--block-to-trace", t]);
    }
    let metrics = *ch.choose(&[None, Some("127.0.0.1:9000"), Some("127.0.0.1")]);
    if let Some(m) = metrics {
        args.extend(["--enable-metrics-with-url", m]);
    }
    let command = ch.pick(5);
    match command {
        1 => args.extend(["import-state", "--path-to-e2ss", "a/b"]),
        2 => args.extend(["export-state", "--path-to-e2ss", "c"]),
        3 => args.push("import-state"),
        4 => args.push("other"),
        _ => {}
    }
    ch.state(&args);
    ch.note(|| args.join(" "));
    let bad = matches!(last, Some("-1" | "many")) || trace == Some("block:") || metrics == Some("127.0.0.1") || command > 2;
    let got = TrinExecutionConfig::try_parse_from(&args);
    ch.outcome(&bad);
    let c = match (got, bad) {
        (Err(_), true) => return Ok(()),
        (Err(e), false) => fail!("refused: {e}"),
        (Ok(_), true) => fail!("taken"),
        (Ok(c), false) => c,
    };
    check_eq!(c.data_dir.as_deref(), dir.then_some(std::path::Path::new("/nowhere/x")), "directory");
    check_eq!(c.ephemeral, ephemeral > 0, "ephemeral");
    check_eq!(c.last_block, last.map(|l| l.parse().unwrap()), "last block");
    let want = match trace {
        None => BlockToTrace::None,
        Some("all") => BlockToTrace::All,
        _ => BlockToTrace::Block(5),
    };
    check_eq!(c.block_to_trace, want, "what to trace");
    check_eq!(c.enable_metrics_with_url.map(|m| m.to_string()), metrics.map(String::from), "metrics");
    let want_command = match command {
        1 => Some(TrinExecutionSubCommands::ImportState(ImportStateConfig { path_to_e2ss: "a/b".into() })),
        2 => Some(TrinExecutionSubCommands::ExportState(ExportStateConfig { path_to_e2ss: "c".into() })),
        _ => None,
    };
    check_eq!(c.command, want_command, "command");
    let s = StateConfig::from(c);
    check_eq!((s.block_to_trace, s.cache_contract_changes), (want, false), "settings of the state");
    ch.eval();
    Ok(())
}

pub fn x08(ctx: &Ctx) {
    ctx.explore("runs with traces", traced);
    ctx.explore("words for what to trace", words);
    ctx.explore("command lines", lines);
}
