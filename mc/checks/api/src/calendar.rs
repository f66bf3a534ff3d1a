use alloy_hardforks::{EthereumHardfork, EthereumHardforks, ForkCondition};
use ethportal_api::{
    consensus::{constants::*, historical_summaries::historical_summary_index},
    types::{
        network::{Network, Subnetwork},
        network_spec::{NetworkSpec, ANGELFOOD, MAINNET, SEPOLIA},
    },
};
use std::{sync::Arc, time::{Duration, SystemTime}};
use vc::{check, check_eq, Ctx};

const GENESIS: [(usize, u64); 3] = [(0, 1_606_824_023), (1, 1_606_824_023), (2, 1_655_733_600)];

fn spec(i: usize) -> Arc<NetworkSpec> {
    [Arc::clone(&MAINNET), Arc::clone(&ANGELFOOD), Arc::clone(&SEPOLIA)][i].clone()
}

fn around(points: &[u64], window: u64) -> Vec<u64> {
    let mut v: Vec<u64> = points
        .iter()
        .flat_map(|p| (p.saturating_sub(window)..=p.saturating_add(window)).collect::<Vec<_>>())
        .collect();
    v.sort();
    v.dedup();
    v
}

pub fn f02(ctx: &Ctx) {
    // Activation points of the mainnet calendar, taken from the specifications.
    let times = [
        (EthereumHardfork::Shanghai, 1_681_338_455u64, 194_048u64),
        (EthereumHardfork::Cancun, 1_710_338_135, 269_568),
        (EthereumHardfork::Prague, 1_746_612_311, 364_032),
    ];
    let window = ctx.b(4096, 65536) as u64;
    ctx.once("constants", |ch| {
        check_eq!(SLOTS_PER_EPOCH, 32, "slots of an epoch");
        check_eq!(SLOTS_PER_HISTORICAL_ROOT, 8192, "slots of a period");
        check_eq!(SECONDS_PER_SLOT, Duration::from_secs(12), "length of a slot");
        for (i, (epoch, name)) in [(CAPELLA_FORK_EPOCH, "Capella"), (DENEB_FORK_EPOCH, "Deneb"), (ELECTRA_FORK_EPOCH, "Electra")].iter().enumerate() {
            ch.eval();
            check_eq!(*epoch, times[i].2, "epoch of {name}");
            ch.outcome(name);
        }
        Ok(())
    });
    ctx.explore("slots around the forks", |ch| {
        let n = ch.pick(2);
        let spec = spec(n);
        let (fork, time, epoch) = *ch.choose(&times);
        let boundary = [CAPELLA_FORK_EPOCH, DENEB_FORK_EPOCH, ELECTRA_FORK_EPOCH][times.iter().position(|t| t.2 == epoch).unwrap()] * SLOTS_PER_EPOCH;
        let spread = ctx.b(512, 8192) as u64;
        for slot in boundary - spread..=boundary + spread {
            ch.eval();
            let at = spec.slot_to_timestamp_u64(slot);
            check_eq!(at, GENESIS[n].1 + 12 * slot, "time of slot {slot}");
            let active = spec.is_ethereum_fork_active_at_timestamp(fork, at);
            check_eq!(active, slot / 32 >= epoch, "{fork:?} at slot {slot}");
            check_eq!(active, at >= time, "{fork:?} at time {at}");
            ch.outcome(&(n, epoch, active));
        }
        Ok(())
    });
    ctx.explore("times around the forks", |ch| {
        let n = ch.pick(3);
        let spec = spec(n);
        let sepolia = [1_677_557_088u64, 1_706_655_072, 1_741_159_776];
        let k = ch.pick(3);
        let points: Vec<u64> = if n == 2 { sepolia.to_vec() } else { times.iter().map(|t| t.1).collect() };
        for t in around(&[points[k]], window).into_iter().chain([0, 1, u64::MAX - 1, u64::MAX]) {
            ch.eval();
            let now: Vec<bool> = times.iter().map(|f| spec.is_ethereum_fork_active_at_timestamp(f.0, t)).collect();
            let want: Vec<bool> = points.iter().map(|p| t >= *p).collect();
            check_eq!(now, want, "forks active at {t} in network {n}");
            check_eq!(
                [spec.is_shanghai_active_at_timestamp(t), spec.is_cancun_active_at_timestamp(t), spec.is_prague_active_at_timestamp(t)].to_vec(),
                want,
                "named forks active at {t} in network {n}"
            );
            ch.outcome(&(n, want));
        }
        Ok(())
    });
    ctx.explore("blocks around the forks", |ch| {
        let n = ch.pick(2);
        let spec = spec(n);
        let points = [(EthereumHardfork::Byzantium, 4_370_000u64), (EthereumHardfork::London, 12_965_000), (EthereumHardfork::Paris, 15_537_394)];
        let (fork, at) = *ch.choose(&points);
        for b in around(&[at, 0], window.min(at)).into_iter().chain([u64::MAX - 1, u64::MAX]) {
            ch.eval();
            if fork == EthereumHardfork::Paris {
                check_eq!(spec.is_paris_active_at_block(b), b >= at, "Paris at block {b}");
            } else {
                check_eq!(spec.is_ethereum_fork_active_at_block(fork, b), b >= at, "{fork:?} at block {b}");
            }
            ch.outcome(&(n, at, b >= at));
        }
        Ok(())
    });
    ctx.explore("slot times across the calendar", |ch| {
        let n = ch.pick(3);
        let spec = spec(n);
        let start = ch.pick(64) as u64 * (1 << 26);
        for slot in (start..start + (1 << 26)).step_by(ctx.b(1 << 15, 1 << 11)).chain([start + (1 << 26) - 1]) {
            ch.eval();
            let want = GENESIS[n].1 + 12 * slot;
            check_eq!(spec.slot_to_timestamp_u64(slot), want, "time of slot {slot}");
            check_eq!(spec.slot_to_timestamp(slot), SystemTime::UNIX_EPOCH + Duration::from_secs(want), "time of slot {slot}");
        }
        ch.outcome(&(n, start));
        Ok(())
    });
    ctx.explore("current slot", |ch| {
        let n = ch.pick(3);
        let spec = spec(n);
        let slot = *ch.choose(&[0u64, 1, 31, 32, 8191, 8192, 6_209_536, 11_649_024, 20_000_000]);
        let off = ch.pick(12) as u64;
        let sub = *ch.choose(&[0u64, 1, 999_999_999]);
        ch.eval();
        vc::clock::start(GENESIS[n].1 + slot * 12 + off);
        vc::clock::advance_ns(sub);
        let got = vc::no_panic(|| spec.current_slot());
        vc::clock::stop();
        check_eq!(got?, slot, "slot {off} s after the start of slot {slot}");
        ch.outcome(&(n, slot));
        Ok(())
    });
    ctx.explore("summary index", |ch| {
        let k = *ch.choose(&[0u64, 1, 2, 700, 10_000]);
        let boundary = (CAPELLA_FORK_EPOCH * SLOTS_PER_EPOCH) + k * 8192;
        for slot in boundary - 300..boundary + 300 {
            ch.eval();
            let want = (slot / 32 >= 194_048).then(|| ((slot - 6_209_536) / 8192) as usize);
            check_eq!(historical_summary_index(slot), want, "summary of slot {slot}");
            ch.outcome(&want);
        }
        check_eq!(historical_summary_index(0), None, "summary of slot 0");
        Ok(())
    });
    ctx.once("network identifiers", |ch| {
        use Subnetwork::*;
        for (i, base) in [(0usize, 0x5000u32), (1, 0x5040), (2, 0x5040)] {
            let spec = spec(i);
            check_eq!(spec.network(), [Network::Mainnet, Network::Angelfood, Network::Sepolia][i], "name of network {i}");
            let mut table = vec![(State, base + 0xa), (LegacyHistory, base + 0xb), (Beacon, base + 0xc), (CanonicalIndices, base + 0xd), (VerkleState, base + 0xe), (TransactionGossip, base + 0xf), (Utp, 0x757470)];
            if i == 0 {
                table.push((History, 0x5000));
            }
            for (s, n) in &table {
                ch.eval();
                let text = format!("0x{n:X}");
                check_eq!(spec.get_protocol_identifier_from_subnetwork(s).ok(), Some(text.clone()), "identifier of {s:?} in network {i}");
                check_eq!(spec.get_subnetwork_from_protocol_identifier(&text).ok(), Some(*s), "network of {text}");
                ch.outcome(&(i, text));
            }
            for n in 0x4ff0..0x5100u32 {
                let known = table.iter().any(|t| t.1 == n);
                check_eq!(spec.get_subnetwork_from_protocol_identifier(&format!("0x{n:X}")).is_ok(), known, "identifier {n:x} in network {i}");
            }
        }
        Ok(())
    });
    ctx.once("fork order", |ch| {
        for i in 0..3 {
            let spec = spec(i);
            for t in &times {
                ch.eval();
                check!(matches!(spec.ethereum_fork_activation(t.0), ForkCondition::Timestamp(_)), "{:?} is not a timestamp fork", t.0);
            }
        }
        Ok(())
    });
}
