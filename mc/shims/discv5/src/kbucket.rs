//! Kademlia routing table with the behaviour of `discv5::kbucket`.
use std::{
    collections::VecDeque,
    hash::{Hash, Hasher},
    time::Duration,
};

use ruint::Uint;
use tokio::time::Instant;

use crate::enr::NodeId;

type U256 = Uint<256, 4>;

pub const MAX_NODES_PER_BUCKET: usize = 16;
pub const NUM_BUCKETS: usize = 256;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Distance(pub U256);

#[derive(Clone, Debug)]
pub struct Key<T> {
    preimage: T,
    hash: [u8; 32],
}

impl<T> PartialEq for Key<T> {
    fn eq(&self, o: &Self) -> bool {
        self.hash == o.hash
    }
}
impl<T> Eq for Key<T> {}
impl<T> Hash for Key<T> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.hash.hash(state);
    }
}
impl<T> AsRef<Key<T>> for Key<T> {
    fn as_ref(&self) -> &Key<T> {
        self
    }
}
impl<T> Key<T> {
    pub fn new_raw(preimage: T, hash: [u8; 32]) -> Key<T> {
        Key { preimage, hash }
    }
    pub const fn preimage(&self) -> &T {
        &self.preimage
    }
    pub fn into_preimage(self) -> T {
        self.preimage
    }
    pub fn distance<U>(&self, other: &Key<U>) -> Distance {
        Distance(U256::from_be_bytes(self.hash) ^ U256::from_be_bytes(other.hash))
    }
    pub fn log2_distance<U>(&self, other: &Key<U>) -> Option<u64> {
        let bits = self.distance(other).0.bit_len() as u64;
        (bits != 0).then_some(bits)
    }
}
impl From<NodeId> for Key<NodeId> {
    fn from(node_id: NodeId) -> Self {
        Key { preimage: node_id, hash: node_id.raw() }
    }
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum ConnectionState {
    Connected,
    Disconnected,
}
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum ConnectionDirection {
    Incoming,
    Outgoing,
}
impl std::fmt::Display for ConnectionDirection {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::Incoming => write!(f, "Incoming"),
            Self::Outgoing => write!(f, "Outgoing"),
        }
    }
}
#[derive(PartialEq, Eq, Debug, Copy, Clone)]
pub struct NodeStatus {
    pub state: ConnectionState,
    pub direction: ConnectionDirection,
}
impl NodeStatus {
    pub fn is_connected(&self) -> bool {
        self.state == ConnectionState::Connected
    }
    pub fn is_incoming(&self) -> bool {
        self.direction == ConnectionDirection::Incoming
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Node<TNodeId, TVal: Eq> {
    pub key: Key<TNodeId>,
    pub value: TVal,
    pub status: NodeStatus,
}

#[derive(Debug, Clone)]
pub struct PendingNode<TNodeId, TVal: Eq> {
    node: Node<TNodeId, TVal>,
    replace: Instant,
}
impl<TNodeId, TVal: Eq> PendingNode<TNodeId, TVal> {
    pub fn status(&self) -> NodeStatus {
        self.node.status
    }
    pub fn value_mut(&mut self) -> &mut TVal {
        &mut self.node.value
    }
    pub fn set_ready_at(&mut self, t: Instant) {
        self.replace = t;
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FailureReason {
    TooManyIncoming,
    BucketFilter,
    TableFilter,
    KeyNonExistent,
    BucketFull,
    InvalidSelfUpdate,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum UpdateResult {
    Updated,
    UpdatedAndPromoted,
    UpdatedPending,
    Failed(FailureReason),
    NotModified,
}
impl UpdateResult {
    fn failed(&self) -> bool {
        matches!(self, UpdateResult::Failed(_))
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InsertResult<TNodeId> {
    Inserted,
    Pending { disconnected: Key<TNodeId> },
    StatusUpdated { promoted_to_connected: bool },
    ValueUpdated,
    Updated { promoted_to_connected: bool },
    UpdatedPending,
    Failed(FailureReason),
}
enum BucketInsert<TNodeId> {
    Inserted,
    Pending { disconnected: Key<TNodeId> },
    FailedFilter,
    TooManyIncoming,
    Full,
    NodeExists,
}

pub trait Filter<TVal: Eq>: FilterClone<TVal> + Send + Sync {
    fn filter(&self, value_to_be_inserted: &TVal, other_vals: &mut dyn Iterator<Item = &TVal>) -> bool;
}
pub trait FilterClone<TVal: Eq> {
    fn clone_box(&self) -> Box<dyn Filter<TVal>>;
}
impl<T, TVal: Eq> FilterClone<TVal> for T
where
    T: 'static + Filter<TVal> + Clone,
{
    fn clone_box(&self) -> Box<dyn Filter<TVal>> {
        Box::new(self.clone())
    }
}
impl<TVal: Eq> Clone for Box<dyn Filter<TVal>> {
    fn clone(&self) -> Self {
        self.clone_box()
    }
}

#[derive(Clone)]
pub struct KBucket<TNodeId, TVal: Eq> {
    nodes: Vec<Node<TNodeId, TVal>>,
    first_connected_pos: Option<usize>,
    pending: Option<PendingNode<TNodeId, TVal>>,
    pending_timeout: Duration,
    filter: Option<Box<dyn Filter<TVal>>>,
    max_incoming: usize,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AppliedPending<TNodeId, TVal: Eq> {
    pub inserted: Key<TNodeId>,
    pub evicted: Option<Node<TNodeId, TVal>>,
}

impl<TNodeId: Clone, TVal: Eq> KBucket<TNodeId, TVal> {
    pub fn iter(&self) -> impl Iterator<Item = &Node<TNodeId, TVal>> {
        self.nodes.iter()
    }
    pub fn pending(&self) -> Option<&PendingNode<TNodeId, TVal>> {
        self.pending.as_ref()
    }
    pub fn num_entries(&self) -> usize {
        self.nodes.len()
    }
    fn position(&self, key: &Key<TNodeId>) -> Option<usize> {
        self.nodes.iter().position(|n| &n.key == key)
    }
    fn status(&self, pos: usize) -> NodeStatus {
        self.nodes[pos].status
    }
    fn passes_filter(&self, value: &TVal) -> bool {
        match &self.filter {
            Some(f) => f.filter(value, &mut self.nodes.iter().map(|n| &n.value)),
            None => true,
        }
    }
    fn is_max_incoming(&self) -> bool {
        self.nodes
            .iter()
            .filter(|n| n.status.is_connected() && n.status.is_incoming())
            .count()
            >= self.max_incoming
    }
    fn remove_at(&mut self, pos: usize) -> Node<TNodeId, TVal> {
        let node = self.nodes.remove(pos);
        match self.first_connected_pos {
            Some(p) if p == pos && node.status.is_connected() => {
                self.first_connected_pos = (p < self.nodes.len()).then_some(p);
            }
            Some(p) if pos < p => self.first_connected_pos = Some(p - 1),
            _ => {}
        }
        node
    }
    fn remove(&mut self, key: &Key<TNodeId>) -> bool {
        if let Some(pos) = self.position(key) {
            self.remove_at(pos);
            self.apply_pending();
            true
        } else {
            false
        }
    }
    fn place(&mut self, node: Node<TNodeId, TVal>) {
        if node.status.is_connected() {
            let pos = self.nodes.len();
            self.first_connected_pos = self.first_connected_pos.or(Some(pos));
            self.nodes.push(node);
        } else {
            match self.first_connected_pos {
                Some(ref mut p) => {
                    self.nodes.insert(*p, node);
                    *p += 1;
                }
                None => self.nodes.push(node),
            }
        }
    }
    fn insert(&mut self, node: Node<TNodeId, TVal>) -> BucketInsert<TNodeId> {
        if self.position(&node.key).is_some() {
            return BucketInsert::NodeExists;
        }
        if !self.passes_filter(&node.value) {
            return BucketInsert::FailedFilter;
        }
        let full = self.nodes.len() >= MAX_NODES_PER_BUCKET;
        if node.status.is_connected() {
            if node.status.is_incoming() && self.is_max_incoming() {
                return BucketInsert::TooManyIncoming;
            }
            if full {
                if self.first_connected_pos == Some(0) || self.pending.is_some() {
                    return BucketInsert::Full;
                }
                self.pending = Some(PendingNode {
                    node,
                    replace: Instant::now() + self.pending_timeout,
                });
                return BucketInsert::Pending { disconnected: self.nodes[0].key.clone() };
            }
        } else if full {
            return BucketInsert::Full;
        }
        let key = node.key.clone();
        self.place(node);
        if self.pending.as_ref().is_some_and(|p| p.node.key == key) {
            self.pending = None;
        }
        BucketInsert::Inserted
    }
    fn apply_pending(&mut self) -> Option<AppliedPending<TNodeId, TVal>> {
        let pending = self.pending.take()?;
        if pending.replace > Instant::now() {
            self.pending = Some(pending);
            return None;
        }
        let node = pending.node;
        if self.nodes.len() >= MAX_NODES_PER_BUCKET {
            if self.nodes[0].status.is_connected() {
                return None;
            }
            if !self.passes_filter(&node.value) {
                return None;
            }
            if node.status.is_connected() && node.status.is_incoming() && self.is_max_incoming() {
                return None;
            }
            let inserted = node.key.clone();
            let evicted = Some(self.remove_at(0));
            self.place(node);
            return Some(AppliedPending { inserted, evicted });
        }
        let inserted = node.key.clone();
        match self.insert(node) {
            BucketInsert::Inserted => Some(AppliedPending { inserted, evicted: None }),
            _ => None,
        }
    }
    fn update_status(
        &mut self,
        key: &Key<TNodeId>,
        state: ConnectionState,
        direction: Option<ConnectionDirection>,
    ) -> UpdateResult {
        if let Some(pos) = self.position(key) {
            let mut node = self.remove_at(pos);
            let old = node.status;
            node.status.state = state;
            if let Some(direction) = direction {
                node.status.direction = direction;
            }
            let new = node.status;
            let not_modified = old == new;
            let promoted = !old.is_connected() && new.is_connected();
            match self.insert(node) {
                BucketInsert::Inserted => {
                    if not_modified {
                        UpdateResult::NotModified
                    } else if promoted {
                        UpdateResult::UpdatedAndPromoted
                    } else {
                        UpdateResult::Updated
                    }
                }
                BucketInsert::TooManyIncoming => UpdateResult::Failed(FailureReason::TooManyIncoming),
                BucketInsert::FailedFilter => UpdateResult::Failed(FailureReason::BucketFilter),
                _ => unreachable!("an existing node was removed and can be re-inserted"),
            }
        } else if let Some(p) = self.pending.as_mut().filter(|p| &p.node.key == key) {
            p.node.status.state = state;
            if let Some(direction) = direction {
                p.node.status.direction = direction;
            }
            UpdateResult::UpdatedPending
        } else {
            UpdateResult::Failed(FailureReason::KeyNonExistent)
        }
    }
    fn update_value(&mut self, key: &Key<TNodeId>, value: TVal) -> UpdateResult {
        if let Some(pos) = self.position(key) {
            if self.nodes[pos].value == value {
                return UpdateResult::NotModified;
            }
            let mut node = self.remove_at(pos);
            node.value = value;
            match self.insert(node) {
                BucketInsert::Inserted => UpdateResult::Updated,
                BucketInsert::FailedFilter => UpdateResult::Failed(FailureReason::BucketFilter),
                BucketInsert::TooManyIncoming => UpdateResult::Failed(FailureReason::TooManyIncoming),
                _ => unreachable!("an existing node was removed and can be re-inserted"),
            }
        } else if let Some(p) = self.pending.as_mut().filter(|p| &p.node.key == key) {
            p.node.value = value;
            UpdateResult::UpdatedPending
        } else {
            UpdateResult::Failed(FailureReason::KeyNonExistent)
        }
    }
}

#[derive(Clone)]
pub struct KBucketsTable<TNodeId, TVal: Eq> {
    local_key: Key<TNodeId>,
    buckets: Vec<KBucket<TNodeId, TVal>>,
    applied_pending: VecDeque<AppliedPending<TNodeId, TVal>>,
    table_filter: Option<Box<dyn Filter<TVal>>>,
}

pub struct EntryRefView<'a, TNodeId, TVal: Eq> {
    pub node: NodeRefView<'a, TNodeId, TVal>,
    pub status: NodeStatus,
}
pub struct NodeRefView<'a, TNodeId, TVal: Eq> {
    pub key: &'a Key<TNodeId>,
    pub value: &'a TVal,
}

pub enum Entry<'a, TPeerId, TVal: Eq> {
    Present(PresentEntry<'a, TPeerId, TVal>, NodeStatus),
    Pending(PendingEntry<'a, TPeerId, TVal>, NodeStatus),
    Absent(AbsentEntry<'a, TPeerId, TVal>),
    SelfEntry,
}
pub struct PresentEntry<'a, TPeerId, TVal: Eq> {
    bucket: &'a mut KBucket<TPeerId, TVal>,
    key: &'a Key<TPeerId>,
}
pub struct PendingEntry<'a, TPeerId, TVal: Eq> {
    bucket: &'a mut KBucket<TPeerId, TVal>,
}
pub struct AbsentEntry<'a, TPeerId, TVal: Eq> {
    #[allow(dead_code)]
    bucket: &'a mut KBucket<TPeerId, TVal>,
}
impl<TPeerId: Clone, TVal: Eq> PresentEntry<'_, TPeerId, TVal> {
    pub fn value(&self) -> &TVal {
        let pos = self.bucket.position(self.key).expect("entry is present");
        &self.bucket.nodes[pos].value
    }
}
impl<TPeerId: Clone, TVal: Eq> PendingEntry<'_, TPeerId, TVal> {
    pub fn value(&mut self) -> &mut TVal {
        self.bucket.pending.as_mut().expect("entry is pending").value_mut()
    }
}

impl<TNodeId: Clone, TVal: Eq> KBucketsTable<TNodeId, TVal> {
    pub fn new(
        local_key: Key<TNodeId>,
        pending_timeout: Duration,
        max_incoming_per_bucket: usize,
        table_filter: Option<Box<dyn Filter<TVal>>>,
        bucket_filter: Option<Box<dyn Filter<TVal>>>,
    ) -> Self {
        KBucketsTable {
            local_key,
            buckets: (0..NUM_BUCKETS)
                .map(|_| KBucket {
                    nodes: Vec::new(),
                    first_connected_pos: None,
                    pending: None,
                    pending_timeout,
                    filter: bucket_filter.clone(),
                    max_incoming: max_incoming_per_bucket,
                })
                .collect(),
            applied_pending: VecDeque::new(),
            table_filter,
        }
    }
    fn index(&self, key: &Key<TNodeId>) -> Option<usize> {
        self.local_key.log2_distance(key).map(|d| d as usize - 1)
    }
    fn passes_table_filter(&self, value: &TVal) -> bool {
        match &self.table_filter {
            Some(f) => f.filter(
                value,
                &mut self.buckets.iter().flat_map(|b| b.nodes.iter().map(|n| &n.value)),
            ),
            None => true,
        }
    }
    fn apply(&mut self, i: usize) {
        if let Some(applied) = self.buckets[i].apply_pending() {
            self.applied_pending.push_back(applied);
        }
    }
    pub fn update_node_status(
        &mut self,
        key: &Key<TNodeId>,
        state: ConnectionState,
        direction: Option<ConnectionDirection>,
    ) -> UpdateResult {
        match self.index(key) {
            Some(i) => {
                self.apply(i);
                self.buckets[i].update_status(key, state, direction)
            }
            None => UpdateResult::NotModified,
        }
    }
    pub fn update_node(
        &mut self,
        key: &Key<TNodeId>,
        value: TVal,
        state: Option<ConnectionState>,
    ) -> UpdateResult {
        let passed = self.passes_table_filter(&value);
        let Some(i) = self.index(key) else {
            return UpdateResult::NotModified;
        };
        self.apply(i);
        let bucket = &mut self.buckets[i];
        if !passed {
            bucket.remove(key);
            return UpdateResult::Failed(FailureReason::TableFilter);
        }
        let value_result = bucket.update_value(key, value);
        if value_result.failed() {
            return value_result;
        }
        let status_result = match state {
            Some(state) => bucket.update_status(key, state, None),
            None => UpdateResult::NotModified,
        };
        match (value_result, status_result) {
            (_, s @ UpdateResult::Failed(_)) => s,
            (UpdateResult::UpdatedPending, _) => UpdateResult::UpdatedPending,
            (_, UpdateResult::UpdatedAndPromoted) => UpdateResult::UpdatedAndPromoted,
            (UpdateResult::NotModified, UpdateResult::NotModified) => UpdateResult::NotModified,
            (_, _) => UpdateResult::Updated,
        }
    }
    pub fn insert_or_update(
        &mut self,
        key: &Key<TNodeId>,
        value: TVal,
        status: NodeStatus,
    ) -> InsertResult<TNodeId> {
        let passed = self.passes_table_filter(&value);
        let Some(i) = self.index(key) else {
            return InsertResult::Failed(FailureReason::InvalidSelfUpdate);
        };
        self.apply(i);
        let bucket = &mut self.buckets[i];
        if !passed {
            bucket.remove(key);
            return InsertResult::Failed(FailureReason::TableFilter);
        }
        if bucket.position(key).is_none() {
            let node = Node { key: key.clone(), value, status };
            return match bucket.insert(node) {
                BucketInsert::NodeExists => unreachable!("position was checked"),
                BucketInsert::Full => InsertResult::Failed(FailureReason::BucketFull),
                BucketInsert::TooManyIncoming => InsertResult::Failed(FailureReason::TooManyIncoming),
                BucketInsert::FailedFilter => InsertResult::Failed(FailureReason::BucketFilter),
                BucketInsert::Pending { disconnected } => InsertResult::Pending { disconnected },
                BucketInsert::Inserted => InsertResult::Inserted,
            };
        }
        let update_status = bucket.update_status(key, status.state, Some(status.direction));
        if let UpdateResult::Failed(reason) = update_status {
            return InsertResult::Failed(reason);
        }
        let update_value = bucket.update_value(key, value);
        match (update_value, update_status) {
            (UpdateResult::Failed(reason), _) => InsertResult::Failed(reason),
            (UpdateResult::Updated, UpdateResult::Updated) => {
                InsertResult::Updated { promoted_to_connected: false }
            }
            (UpdateResult::Updated, UpdateResult::UpdatedAndPromoted) => {
                InsertResult::Updated { promoted_to_connected: true }
            }
            (UpdateResult::Updated, _) => InsertResult::ValueUpdated,
            (UpdateResult::NotModified, UpdateResult::UpdatedAndPromoted) => {
                InsertResult::StatusUpdated { promoted_to_connected: true }
            }
            (UpdateResult::NotModified, UpdateResult::Updated) => {
                InsertResult::StatusUpdated { promoted_to_connected: false }
            }
            (UpdateResult::NotModified, UpdateResult::NotModified) => {
                InsertResult::Updated { promoted_to_connected: false }
            }
            (UpdateResult::UpdatedPending, _) | (_, UpdateResult::UpdatedPending) => {
                InsertResult::UpdatedPending
            }
            (UpdateResult::UpdatedAndPromoted, _) => unreachable!("value update cannot promote"),
            (_, UpdateResult::Failed(_)) => unreachable!("handled above"),
        }
    }
    pub fn remove(&mut self, key: &Key<TNodeId>) -> bool {
        match self.index(key) {
            Some(i) => {
                self.apply(i);
                self.buckets[i].remove(key)
            }
            None => false,
        }
    }
    pub fn entry<'a>(&'a mut self, key: &'a Key<TNodeId>) -> Entry<'a, TNodeId, TVal> {
        let Some(i) = self.index(key) else {
            return Entry::SelfEntry;
        };
        self.apply(i);
        let bucket = &mut self.buckets[i];
        if let Some(pos) = bucket.position(key) {
            let status = bucket.status(pos);
            return Entry::Present(PresentEntry { bucket, key }, status);
        }
        if let Some(p) = bucket.pending.as_ref().filter(|p| &p.node.key == key) {
            let status = p.status();
            return Entry::Pending(PendingEntry { bucket }, status);
        }
        Entry::Absent(AbsentEntry { bucket })
    }
    pub fn iter(&mut self) -> impl Iterator<Item = EntryRefView<'_, TNodeId, TVal>> {
        for i in 0..self.buckets.len() {
            self.apply(i);
        }
        self.iter_ref()
    }
    pub fn iter_ref(&self) -> impl Iterator<Item = EntryRefView<'_, TNodeId, TVal>> {
        self.buckets.iter().flat_map(|b| b.nodes.iter()).map(|n| EntryRefView {
            node: NodeRefView { key: &n.key, value: &n.value },
            status: n.status,
        })
    }
    pub fn buckets_iter(&self) -> impl Iterator<Item = &KBucket<TNodeId, TVal>> {
        self.buckets.iter()
    }
    pub fn take_applied_pending(&mut self) -> Option<AppliedPending<TNodeId, TVal>> {
        self.applied_pending.pop_front()
    }
    pub fn nodes_by_distances(
        &mut self,
        log2_distances: &[u64],
        max_nodes: usize,
    ) -> Vec<EntryRefView<'_, TNodeId, TVal>> {
        let distances: Vec<usize> = log2_distances
            .iter()
            .filter(|&&d| d > 0 && d <= NUM_BUCKETS as u64)
            .map(|&d| d as usize)
            .collect();
        for d in &distances {
            self.apply(d - 1);
        }
        let mut out = Vec::new();
        for d in &distances {
            for n in &self.buckets[d - 1].nodes {
                out.push(EntryRefView {
                    node: NodeRefView { key: &n.key, value: &n.value },
                    status: n.status,
                });
                if out.len() >= max_nodes {
                    return out;
                }
            }
        }
        out
    }
    /// All entries ordered by distance from the target.
    pub fn closest_values<'a, T: 'a>(
        &'a mut self,
        target: &'a Key<T>,
    ) -> impl Iterator<Item = (Key<TNodeId>, &'a TVal)> + 'a {
        let mut all: Vec<_> = self.iter().map(|e| (e.node.key.clone(), e.node.value)).collect();
        all.sort_by_key(|(k, _)| target.distance(k));
        all.into_iter()
    }
    pub fn closest_keys<'a, T: 'a>(
        &'a mut self,
        target: &'a Key<T>,
    ) -> impl Iterator<Item = Key<TNodeId>> + 'a {
        self.closest_values(target).map(|(k, _)| k)
    }
    /// Makes every pending insertion due immediately (harness only).
    pub fn fake_expire_pending(&mut self) {
        for b in &mut self.buckets {
            if let Some(p) = &mut b.pending {
                p.replace = Instant::now();
            }
        }
    }
}
