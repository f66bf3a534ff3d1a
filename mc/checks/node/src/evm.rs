//! What the virtual machine is told about a block and a transaction.

use alloy::{
    consensus::{Header, TxEip1559, TxEip2930, TxEip4844, TxLegacy},
    eips::eip2930::{AccessList, AccessListItem},
    primitives::{Address, Bytes, B256, U256},
    rlp::Decodable,
    rpc::types::{TransactionInput, TransactionRequest},
};
use revm::{
    context::{BlockEnv, TxEnv},
    state::{AccountInfo, Bytecode},
    Database, MainnetEvm,
};
use revm_primitives::{hardfork::SpecId, TxKind};
use trin_evm::{create_block_env, create_evm, spec_id::get_spec_id, tx_env_modifier::TxEnvModifier};
use vc::{check_eq, Ch, Ctx, Res};

use crate::blocks::Head;

/// The first block of each set of rules of the main network.
const FORKS: [(SpecId, u64); 17] = [
    (SpecId::FRONTIER, 0),
    (SpecId::FRONTIER_THAWING, 200_000),
    (SpecId::HOMESTEAD, 1_150_000),
    (SpecId::DAO_FORK, 1_920_000),
    (SpecId::TANGERINE, 2_463_000),
    (SpecId::SPURIOUS_DRAGON, 2_675_000),
    (SpecId::BYZANTIUM, 4_370_000),
    (SpecId::PETERSBURG, 7_280_000),
    (SpecId::ISTANBUL, 9_069_000),
    (SpecId::MUIR_GLACIER, 9_200_000),
    (SpecId::BERLIN, 12_244_000),
    (SpecId::LONDON, 12_965_000),
    (SpecId::ARROW_GLACIER, 13_773_000),
    (SpecId::GRAY_GLACIER, 15_050_000),
    (SpecId::MERGE, 15_537_394),
    (SpecId::SHANGHAI, 17_034_870),
    (SpecId::CANCUN, 19_426_587),
];

const MERGE: usize = 14;
const DRAGON: usize = 5;

/// Blocks around the starts of the rules, each with the position of its rules.
fn numbers() -> Vec<(usize, u64)> {
    let mut out = vec![];
    for (i, (_, first)) in FORKS.iter().enumerate() {
        if i > 0 {
            out.push((i - 1, first - 2));
            out.push((i - 1, first - 1));
        }
        out.push((i, *first));
        out.push((i, first + 1));
    }
    out.push((16, 20_000_000));
    out
}

struct Nothing;
impl Database for Nothing {
    type Error = std::convert::Infallible;
    fn basic(&mut self, _: Address) -> Result<Option<AccountInfo>, Self::Error> {
        Ok(None)
    }
    fn code_by_hash(&mut self, _: B256) -> Result<Bytecode, Self::Error> {
        Ok(Bytecode::new())
    }
    fn storage(&mut self, _: Address, _: U256) -> Result<U256, Self::Error> {
        Ok(U256::ZERO)
    }
    fn block_hash(&mut self, _: u64) -> Result<B256, Self::Error> {
        Ok(B256::ZERO)
    }
}

fn machine<T: TxEnvModifier>(block: BlockEnv, tx: &T) -> (SpecId, BlockEnv, TxEnv) {
    let mut db = Nothing;
    let MainnetEvm { ctx, .. } = create_evm(block, tx, &mut db);
    (ctx.cfg.spec, ctx.block, ctx.tx)
}

fn block(ch: &mut Ch) -> Res {
    let (fork, number) = *ch.choose(&numbers());
    let mut head = Head::at(number);
    head.timestamp = 1 + ch.pick(2) as u64;
    head.difficulty = ch.pick(2) as u128 * 77;
    head.base_fee = *ch.choose(&[None, Some(0), Some(5_000_000_000)]);
    if head.base_fee.is_some() && ch.flag() {
        head.withdrawals = Some([3; 32]);
        head.blobs = *ch.choose(&[None, Some((131_072, 0, [5; 32])), Some((0, 393_216, [5; 32]))]);
    }
    let rlp = head.rlp();
    let header = Header::decode(&mut &rlp[..]).map_err(|e| format!("the header does not decode: {e}"))?;
    let env = create_block_env(&header);
    ch.eval();
    ch.outcome(&(fork, head.blobs.is_some()));
    check_eq!(get_spec_id(number), FORKS[fork].0, "rules of block {number}");
    check_eq!((env.number, env.timestamp, env.gas_limit), (number, head.timestamp, head.gas_limit), "number, time, gas");
    check_eq!(env.beneficiary.0 .0, head.beneficiary, "beneficiary");
    check_eq!(env.difficulty, U256::from(head.difficulty), "difficulty");
    check_eq!(env.basefee, head.base_fee.unwrap_or(0), "base fee");
    check_eq!(env.prevrandao.map(|p| p.0), (fork >= MERGE).then_some(head.mix), "randomness of block {number}");
    check_eq!(env.blob_excess_gas_and_price.as_ref().map(|b| b.excess_blob_gas), head.blobs.map(|b| b.1), "excess of blob gas");
    let (spec, given, _) = machine(env.clone(), &TransactionRequest::default());
    check_eq!(spec, FORKS[fork].0, "rules of the machine at block {number}");
    check_eq!(given, env, "block of the machine");
    Ok(())
}

fn list(n: usize) -> AccessList {
    let item = |i: usize| AccessListItem { address: Address::from([0x40 + i as u8; 20]), storage_keys: (0..=i).map(|k| B256::from([k as u8; 32])).collect() };
    AccessList((0..n).map(item).collect())
}

fn transaction(ch: &mut Ch) -> Res {
    let (fork, number) = *ch.choose(&numbers());
    let kind = ch.pick(4);
    let to = if kind == 3 || ch.flag() { TxKind::Call(Address::from([0x31; 20])) } else { TxKind::Create };
    let value = U256::from(ch.pick(2) as u64 * 9);
    let input: Bytes = vec![1, 2, 3][..ch.pick(2) * 3].to_vec().into();
    let access = list(if kind == 0 { 0 } else { ch.pick(3) });
    let (nonce, gas, price, tip, blob) = (11, 12, 13u128, 14u128, 15u128);
    let blobs: Vec<B256> = (0..if kind == 3 { ch.pick(3) } else { 0 }).map(|i| B256::from([i as u8; 32])).collect();
    let block = BlockEnv { number, ..Default::default() };
    let chain = if kind == 0 { 1 } else { *ch.choose(&[1, 5]) };
    let (spec, _, env) = match kind {
        0 => machine(block, &TxLegacy { chain_id: ch.flag().then_some(1), nonce, gas_price: price, gas_limit: gas, to, value, input: input.clone() }),
        1 => machine(block, &TxEip2930 { chain_id: chain, nonce, gas_price: price, gas_limit: gas, to, value, access_list: access.clone(), input: input.clone() }),
        2 => machine(block, &TxEip1559 { chain_id: chain, nonce, gas_limit: gas, max_fee_per_gas: price, max_priority_fee_per_gas: tip, to, value, access_list: access.clone(), input: input.clone() }),
        _ => machine(
            block,
            &TxEip4844 {
                chain_id: chain,
                nonce,
                gas_limit: gas,
                max_fee_per_gas: price,
                max_priority_fee_per_gas: tip,
                to: Address::from([0x31; 20]),
                value,
                access_list: access.clone(),
                blob_versioned_hashes: blobs.clone(),
                max_fee_per_blob_gas: blob,
                input: input.clone(),
            },
        ),
    };
    ch.eval();
    ch.outcome(&(kind, fork));
    check_eq!(spec, FORKS[fork].0, "rules at block {number}");
    let want = TxEnv {
        tx_type: kind as u8,
        caller: env.caller,
        gas_limit: gas,
        gas_price: price,
        kind: to,
        value,
        data: input,
        nonce,
        chain_id: (kind > 0 || fork >= DRAGON).then_some(chain),
        access_list: access,
        gas_priority_fee: (kind > 1).then_some(tip),
        blob_hashes: blobs,
        max_fee_per_blob_gas: if kind == 3 { blob } else { 0 },
        authorization_list: vec![],
    };
    check_eq!(env, want, "transaction of kind {kind} at block {number}");
    Ok(())
}

/// A request: what it does not say is left as it was.
fn request(ch: &mut Ch) -> Res {
    let mask = ch.subset(12);
    let has = |i: usize| mask >> i & 1 == 1;
    let input: Bytes = vec![7, 8].into();
    let mut request = TransactionRequest {
        from: has(0).then_some(Address::from([0x21; 20])),
        to: has(1).then_some(TxKind::Call(Address::from([0x22; 20]))),
        max_priority_fee_per_gas: has(2).then_some(23),
        max_fee_per_blob_gas: has(3).then_some(24),
        gas: has(4).then_some(25),
        value: has(5).then_some(U256::from(26)),
        nonce: has(6).then_some(27),
        chain_id: has(7).then_some(28),
        access_list: has(8).then(|| list(2)),
        blob_versioned_hashes: has(9).then(|| vec![B256::from([29; 32])]),
        ..Default::default()
    };
    // Either name of the input, and either form of the price.
    if has(10) {
        request.input = if ch.flag() {
            TransactionInput { input: Some(input.clone()), data: None }
        } else {
            TransactionInput { input: None, data: Some(input.clone()) }
        };
    }
    if has(11) {
        *(if ch.flag() { &mut request.gas_price } else { &mut request.max_fee_per_gas }) = Some(30);
    }
    let base = TxEnv::default();
    let (_, _, env) = machine(BlockEnv::default(), &request);
    ch.eval();
    let want = TxEnv {
        tx_type: env.tx_type,
        caller: request.from.unwrap_or(base.caller),
        gas_limit: request.gas.unwrap_or(base.gas_limit),
        gas_price: if has(11) { 30 } else { base.gas_price },
        kind: request.to.unwrap_or(base.kind),
        value: request.value.unwrap_or(base.value),
        data: if has(10) { input } else { base.data },
        nonce: request.nonce.unwrap_or(base.nonce),
        chain_id: if has(7) { Some(28) } else { env.chain_id },
        access_list: request.access_list.clone().unwrap_or_default(),
        gas_priority_fee: if has(2) { Some(23) } else { None },
        blob_hashes: request.blob_versioned_hashes.clone().unwrap_or_default(),
        max_fee_per_blob_gas: request.max_fee_per_blob_gas.unwrap_or(base.max_fee_per_blob_gas),
        authorization_list: vec![],
    };
    check_eq!(env, want, "what the machine gets for {request:?}");
    ch.outcome(&mask);
    Ok(())
}

pub fn n09(ctx: &Ctx) {
    ctx.explore("blocks", block);
    ctx.explore("transactions", transaction);
    ctx.explore("requests", request);
}
