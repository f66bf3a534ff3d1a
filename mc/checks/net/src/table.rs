//! O06: the routing table.

use std::{
    collections::{BTreeMap, BTreeSet},
    time::Duration,
};

use discv5::{
    enr::NodeId,
    kbucket::{InsertResult, KBucketsTable, NodeStatus, UpdateResult},
    ConnectionDirection, ConnectionState, Enr, Key,
};
use ethportal_api::types::distance::{Distance, XorMetric};
use portalnet::types::{
    kbucket::{Entry, SharedKBucketsTable},
    node::Node,
};
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::peers::{self, log_distance, xor};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Row {
    seq: u64,
    radius: u8,
    connected: bool,
}

type Model = BTreeMap<u16, Row>;

/// Radii of the alphabet: nothing, about half of the space, everything.
fn radius(r: u8) -> Distance {
    let mut b = [0u8; 32];
    match r {
        0 => {}
        1 => b[0] = 0x7f,
        _ => b = [0xff; 32],
    }
    Distance::from(alloy::primitives::U256::from_be_bytes(b))
}

fn covers(r: u8, distance: &[u8; 32]) -> bool {
    let mut b = [0u8; 32];
    match r {
        0 => {}
        1 => b[0] = 0x7f,
        _ => b = [0xff; 32],
    }
    *distance <= b
}

pub fn table() -> SharedKBucketsTable {
    SharedKBucketsTable::new(KBucketsTable::new(
        Key::from(peers::id(1)),
        Duration::from_secs(60),
        16,
        None,
        None,
    ))
}

fn status(connected: bool) -> NodeStatus {
    NodeStatus { state: state(connected), direction: ConnectionDirection::Outgoing }
}

fn state(connected: bool) -> ConnectionState {
    if connected {
        ConnectionState::Connected
    } else {
        ConnectionState::Disconnected
    }
}

pub fn put(t: &SharedKBucketsTable, k: u16, seq: u64, r: Distance, connected: bool) -> InsertResult<NodeId> {
    t.insert_or_update(Node::new(peers::record(k, seq), r), status(connected))
}

fn name(enr: &Enr, everyone: &[u16]) -> (u16, u64) {
    let k = everyone
        .iter()
        .copied()
        .chain([1])
        .find(|k| peers::id(*k) == enr.node_id())
        .unwrap_or(0);
    (k, enr.seq())
}

fn sorted(mut v: Vec<(u16, u64)>) -> Vec<(u16, u64)> {
    v.sort();
    v
}

/// Compares everything the table answers with the model.
fn observe(t: &SharedKBucketsTable, m: &Model, everyone: &[u16]) -> Res {
    let me = peers::id(1).raw();
    for k in everyone {
        let got = match t.entry(peers::id(*k)) {
            Entry::Present(n, s) => Some((n.enr.seq(), n.data_radius, s.is_connected())),
            Entry::Pending(..) => vc::fail!("node {k} is pending"),
            Entry::Absent => None,
            Entry::SelfEntry => vc::fail!("node {k} is taken for ourselves"),
        };
        let want = m.get(k).map(|r| (r.seq, radius(r.radius), r.connected));
        check_eq!(got, want, "entry of node {k} (record, radius, connected)");
    }
    check!(matches!(t.entry(peers::id(1)), Entry::SelfEntry), "our own entry is not recognised");
    let all = |want: bool| -> Vec<(u16, u64)> {
        m.iter().filter(|(_, r)| !want || r.connected).map(|(k, r)| (*k, r.seq)).collect()
    };
    let got = sorted(t.enrs().iter().map(|e| name(e, everyone)).collect());
    check_eq!(got, all(false), "all records");
    let buckets = ethportal_api::KBucketsTable::from(t);
    for (i, b) in buckets.buckets.iter().enumerate() {
        for n in &b.node_ids {
            check_eq!(
                log_distance(&me, &n.raw()) as usize,
                i + 1,
                "distance of a node listed in bucket {i}"
            );
        }
    }
    check_eq!(
        buckets.buckets.iter().map(|b| b.node_ids.len()).sum::<usize>(),
        m.len(),
        "number of nodes listed by bucket"
    );
    let connected = all(true);
    let closest = |target: &[u8; 32]| -> Vec<(u16, u64)> {
        let mut v = connected.clone();
        v.sort_by_key(|(k, _)| xor(target, &peers::id(*k).raw()));
        v
    };
    let mut targets: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], me];
    targets.extend(everyone.iter().take(3).map(|k| peers::id(*k).raw()));
    for target in &targets {
        let want = closest(target);
        for limit in [0, 1, 2, 3, 20] {
            let cut: Vec<_> = want.iter().copied().take(limit).collect();
            let got: Vec<_> = t
                .closest_to_node_id(NodeId::new(target), limit)
                .iter()
                .map(|e| name(e, everyone))
                .collect();
            check_eq!(got, cut, "{limit} nodes closest to node id {:02x}..", target[0]);
            let got: Vec<_> = t
                .closest_to_content_id::<XorMetric>(target, limit)
                .iter()
                .map(|e| name(e, everyone))
                .collect();
            check_eq!(got, cut, "{limit} nodes closest to content id {:02x}..", target[0]);
        }
    }
    let ids: Vec<&[u8; 32]> = targets.iter().collect();
    let interested = t.batch_interested_enrs::<XorMetric>(&ids);
    for target in &targets {
        let got = sorted(
            interested
                .get(target)
                .map(|v| v.iter().map(|e| name(e, everyone)).collect())
                .unwrap_or_else(|| vec![(9999, 0)]),
        );
        let want: Vec<(u16, u64)> = m
            .iter()
            .filter(|(k, r)| r.connected && covers(r.radius, &xor(target, &peers::id(**k).raw())))
            .map(|(k, r)| (*k, r.seq))
            .collect();
        check_eq!(got, want, "nodes interested in content {:02x}..", target[0]);
    }
    for limit in [0, 1, 2, 20] {
        let got: Vec<_> = t.random_peers(limit).iter().map(|e| name(e, everyone)).collect();
        let set: BTreeSet<_> = got.iter().copied().collect();
        check!(
            set.len() == got.len()
                && got.len() == limit.min(connected.len())
                && got.iter().all(|n| connected.contains(n)),
            "{limit} random peers are {got:?} out of {connected:?}"
        );
    }
    let distances = [0u16, 256, 255, 254];
    for s in 0..1u32 << distances.len() {
        let mut asked: Vec<u16> = (0..distances.len())
            .filter(|i| s >> i & 1 == 1)
            .map(|i| distances[i])
            .collect();
        // The same distance twice is answered once.
        asked.extend(asked.clone());
        let got = t.nodes_by_distances(peers::record(1, 9), &asked, 64);
        let mut want: Vec<(u16, u64)> = m
            .iter()
            .filter(|(k, r)| r.connected && asked.contains(&log_distance(&me, &peers::id(**k).raw())))
            .map(|(k, r)| (*k, r.seq))
            .collect();
        if asked.contains(&0) {
            want.push((1, 9));
        }
        let got = sorted(got.iter().map(|e| name(e, everyone)).collect());
        check_eq!(got, sorted(want), "nodes at distances {asked:?}");
        for limit in [1usize, 2] {
            let few = t.nodes_by_distances(peers::record(1, 9), &asked, limit);
            let few: Vec<_> = few.iter().map(|e| name(e, everyone)).collect();
            check!(
                few.len() <= limit && few.iter().all(|n| got.contains(n)),
                "at most {limit} nodes at distances {asked:?} are {few:?} out of {got:?}"
            );
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    Insert(u16, Row),
    Update(u16, u64, u8, Option<bool>),
    Status(u16, bool),
    Found(Vec<(u16, u64)>),
    Remove(u16),
}

fn apply(t: &SharedKBucketsTable, m: &mut Model, op: &Op, room: impl Fn(&Model, u16) -> bool) -> Res {
    match op {
        Op::Insert(k, row) => {
            let got = put(t, *k, row.seq, radius(row.radius), row.connected);
            let fits = m.contains_key(k) || room(m, *k);
            check_eq!(
                !matches!(got, InsertResult::Failed(_) | InsertResult::Pending { .. }),
                fits,
                "insertion of node {k} succeeds ({got:?})"
            );
            if fits {
                m.insert(*k, *row);
            }
        }
        Op::Update(k, seq, r, s) => {
            let mut n = Node::new(peers::record(*k, *seq), radius(*r));
            n.set_data_radius(radius(*r));
            let got = t.update_node(n, s.map(state));
            check_eq!(
                !matches!(got, UpdateResult::Failed(_)),
                m.contains_key(k),
                "update of node {k} succeeds ({got:?})"
            );
            if let Some(row) = m.get_mut(k) {
                *row = Row { seq: *seq, radius: *r, connected: s.unwrap_or(row.connected) };
            }
        }
        Op::Status(k, s) => {
            let got = t.update_node_status(peers::id(*k), state(*s), None);
            check_eq!(
                !matches!(got, UpdateResult::Failed(_)),
                m.contains_key(k),
                "change of the connection of node {k} succeeds ({got:?})"
            );
            if let Some(row) = m.get_mut(k) {
                row.connected = *s;
            }
        }
        Op::Found(list) => {
            let got = t.insert_or_update_discovered_nodes(
                list.iter().map(|(k, seq)| peers::record(*k, *seq)),
            );
            let mut inserted = vec![];
            for (k, seq) in list {
                if *k == 1 {
                    continue;
                }
                if let Some(row) = m.get_mut(k) {
                    row.seq = row.seq.max(*seq);
                } else if room(m, *k) {
                    m.insert(*k, Row { seq: *seq, radius: 2, connected: false });
                    inserted.push(peers::id(*k));
                }
            }
            check_eq!(got.inserted_nodes, inserted, "nodes reported as new by {op:?}");
            check!(got.removed_nodes.is_empty(), "{op:?} reports nodes as removed");
        }
        Op::Remove(k) => {
            let got = t.remove(peers::id(*k));
            check_eq!(got, m.remove(k).is_some(), "removal of node {k}");
        }
    }
    Ok(())
}

fn small(ch: &mut Ch, len: usize, ops: &[Op], everyone: &[u16]) -> Res {
    let n = 1 + ch.pick(len);
    let t = table();
    let mut m = Model::new();
    for _ in 0..n {
        let op = ch.choose(ops).clone();
        ch.note(|| format!("{op:?}"));
        apply(&t, &mut m, &op, |_, _| true)?;
        ch.steps(1);
        ch.state(&m);
    }
    observe(&t, &m, everyone)?;
    ch.outcome(&m);
    ch.evals(100);
    Ok(())
}

pub fn o06(ctx: &Ctx) {
    let far = peers::at_distance(256, 20);
    let near = peers::at_distance(255, 2);
    let (a, b, c) = (far[0], far[1], near[0]);

    let mut ops = vec![];
    for k in [a, c] {
        for seq in [1, 2] {
            for r in [0, 1] {
                for connected in [true, false] {
                    ops.push(Op::Insert(k, Row { seq, radius: r, connected }));
                }
            }
        }
    }
    ops.push(Op::Insert(b, Row { seq: 2, radius: 2, connected: true }));
    for k in [a, b] {
        for s in [None, Some(true), Some(false)] {
            ops.push(Op::Update(k, 2, 1, s));
        }
        for s in [true, false] {
            ops.push(Op::Status(k, s));
        }
        ops.push(Op::Remove(k));
        for seq in [1, 2, 3] {
            ops.push(Op::Found(vec![(k, seq)]));
        }
    }
    ops.push(Op::Status(c, false));
    ops.push(Op::Found(vec![(a, 2), (a, 1), (b, 1), (1, 5)]));
    ops.push(Op::Found(vec![(1, 5), (c, 1), (c, 3), (b, 2)]));
    let everyone = [a, b, c];
    let len = ctx.b(3, 4);
    ctx.explore("histories over three nodes", |ch| small(ch, len, &ops, &everyone));

    // A bucket of sixteen places with fifteen taken.
    let mut ops = vec![];
    for k in &far[15..18] {
        ops.push(Op::Insert(*k, Row { seq: 1, radius: 1, connected: true }));
        ops.push(Op::Found(vec![(*k, 1)]));
        ops.push(Op::Found(vec![(*k, 2)]));
    }
    ops.push(Op::Found(vec![(far[15], 1), (far[16], 1), (far[0], 7)]));
    ops.push(Op::Remove(far[0]));
    ops.push(Op::Remove(far[15]));
    let crowd: Vec<u16> = far[..18].to_vec();
    let len = ctx.b(3, 5);
    ctx.explore("a nearly full bucket", |ch| {
        let n = 1 + ch.pick(len);
        let t = table();
        let mut m = Model::new();
        for k in &far[..15] {
            apply(&t, &mut m, &Op::Insert(*k, Row { seq: 1, radius: 1, connected: true }), |_, _| true)?;
        }
        for _ in 0..n {
            let op = ch.choose(&ops).clone();
            ch.note(|| format!("{op:?}"));
            // A place is also found by pushing out a disconnected node later; such a state is not
            // of interest here.
            if let Op::Insert(k, _) = &op {
                if !m.contains_key(k) && m.len() == 16 && m.values().any(|r| !r.connected) {
                    continue;
                }
            }
            apply(&t, &mut m, &op, |m, _| m.len() < 16)?;
            ch.steps(1);
            ch.state(&m);
        }
        observe(&t, &m, &crowd)?;
        ch.outcome(&m);
        ch.evals(100);
        Ok(())
    });

    // A full bucket with a disconnected node, which a new node waits to replace.
    ctx.explore("a node waiting for a place", |ch| {
        let t = table();
        let mut m = Model::new();
        let idle = ch.pick(16);
        for (i, k) in far[..16].iter().enumerate() {
            apply(&t, &mut m, &Op::Insert(*k, Row { seq: 1, radius: 1, connected: i != idle }), |_, _| true)?;
        }
        let new = far[16];
        let got = put(&t, new, 2, radius(0), true);
        check!(matches!(got, InsertResult::Pending { .. }), "insertion of a node that has to wait: {got:?}");
        let mut seq = 2;
        for _ in 0..1 + ch.pick(2) {
            let list: Vec<(u16, u64)> = match ch.pick(3) {
                0 => vec![(new, 1 + ch.pick(4) as u64)],
                1 => vec![(new, 1), (far[17], 1), (new, 1 + ch.pick(4) as u64)],
                _ => vec![(far[17], 1), (far[0], 1)],
            };
            ch.note(|| format!("{} is idle, found {list:?}", far[idle]));
            let got = t.insert_or_update_discovered_nodes(list.iter().map(|(k, seq)| peers::record(*k, *seq)));
            check!(got.inserted_nodes.is_empty() && got.removed_nodes.is_empty(), "{list:?} reports nodes as inserted or removed");
            seq = list.iter().filter(|(k, _)| *k == new).map(|(_, s)| *s).fold(seq, u64::max);
            match t.entry(peers::id(new)) {
                Entry::Pending(n, s) => {
                    check_eq!((n.enr.seq(), n.data_radius, s.is_connected()), (seq, radius(0), true), "waiting node (record, radius, connected)");
                }
                _ => vc::fail!("the node waits no longer"),
            }
            ch.steps(1);
        }
        ch.state(&(idle, seq));
        ch.outcome(&seq);
        observe(&t, &m, &far[..16])
    });
}
