// Accessors in the style of rust-protobuf for the messages of eraftpb.proto.
use super::eraftpb::*;

impl Entry {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_entry_type(&self) -> EntryType {
        self.entry_type()
    }
    pub fn get_term(&self) -> u64 {
        self.term
    }
    pub fn set_term(&mut self, v: u64) {
        self.term = v;
    }
    pub fn get_index(&self) -> u64 {
        self.index
    }
    pub fn set_index(&mut self, v: u64) {
        self.index = v;
    }
    pub fn get_data(&self) -> &[u8] {
        &self.data
    }
    pub fn set_data(&mut self, v: Vec<u8>) {
        self.data = v;
    }
    pub fn mut_data(&mut self) -> &mut Vec<u8> {
        &mut self.data
    }
    pub fn take_data(&mut self) -> Vec<u8> {
        core::mem::take(&mut self.data)
    }
    pub fn get_context(&self) -> &[u8] {
        &self.context
    }
    pub fn set_context(&mut self, v: Vec<u8>) {
        self.context = v;
    }
    pub fn mut_context(&mut self) -> &mut Vec<u8> {
        &mut self.context
    }
    pub fn take_context(&mut self) -> Vec<u8> {
        core::mem::take(&mut self.context)
    }
    pub fn get_sync_log(&self) -> bool {
        self.sync_log
    }
    pub fn set_sync_log(&mut self, v: bool) {
        self.sync_log = v;
    }
}

impl SnapshotMetadata {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn has_conf_state(&self) -> bool {
        self.conf_state.is_some()
    }
    pub fn get_conf_state(&self) -> &ConfState {
        static EMPTY: std::sync::OnceLock<ConfState> = std::sync::OnceLock::new();
        self.conf_state.as_ref().unwrap_or_else(|| EMPTY.get_or_init(ConfState::default))
    }
    pub fn mut_conf_state(&mut self) -> &mut ConfState {
        self.conf_state.get_or_insert_with(ConfState::default)
    }
    pub fn set_conf_state(&mut self, v: ConfState) {
        self.conf_state = Some(v);
    }
    pub fn take_conf_state(&mut self) -> ConfState {
        self.conf_state.take().unwrap_or_default()
    }
    pub fn clear_conf_state(&mut self) {
        self.conf_state = None;
    }
    pub fn get_index(&self) -> u64 {
        self.index
    }
    pub fn set_index(&mut self, v: u64) {
        self.index = v;
    }
    pub fn get_term(&self) -> u64 {
        self.term
    }
    pub fn set_term(&mut self, v: u64) {
        self.term = v;
    }
}

impl Snapshot {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_data(&self) -> &[u8] {
        &self.data
    }
    pub fn set_data(&mut self, v: Vec<u8>) {
        self.data = v;
    }
    pub fn mut_data(&mut self) -> &mut Vec<u8> {
        &mut self.data
    }
    pub fn take_data(&mut self) -> Vec<u8> {
        core::mem::take(&mut self.data)
    }
    pub fn has_metadata(&self) -> bool {
        self.metadata.is_some()
    }
    pub fn get_metadata(&self) -> &SnapshotMetadata {
        static EMPTY: std::sync::OnceLock<SnapshotMetadata> = std::sync::OnceLock::new();
        self.metadata.as_ref().unwrap_or_else(|| EMPTY.get_or_init(SnapshotMetadata::default))
    }
    pub fn mut_metadata(&mut self) -> &mut SnapshotMetadata {
        self.metadata.get_or_insert_with(SnapshotMetadata::default)
    }
    pub fn set_metadata(&mut self, v: SnapshotMetadata) {
        self.metadata = Some(v);
    }
    pub fn take_metadata(&mut self) -> SnapshotMetadata {
        self.metadata.take().unwrap_or_default()
    }
    pub fn clear_metadata(&mut self) {
        self.metadata = None;
    }
}

impl Message {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_msg_type(&self) -> MessageType {
        self.msg_type()
    }
    pub fn get_to(&self) -> u64 {
        self.to
    }
    pub fn set_to(&mut self, v: u64) {
        self.to = v;
    }
    pub fn get_from(&self) -> u64 {
        self.from
    }
    pub fn set_from(&mut self, v: u64) {
        self.from = v;
    }
    pub fn get_term(&self) -> u64 {
        self.term
    }
    pub fn set_term(&mut self, v: u64) {
        self.term = v;
    }
    pub fn get_log_term(&self) -> u64 {
        self.log_term
    }
    pub fn set_log_term(&mut self, v: u64) {
        self.log_term = v;
    }
    pub fn get_index(&self) -> u64 {
        self.index
    }
    pub fn set_index(&mut self, v: u64) {
        self.index = v;
    }
    pub fn get_entries(&self) -> &[Entry] {
        &self.entries
    }
    pub fn mut_entries(&mut self) -> &mut Vec<Entry> {
        &mut self.entries
    }
    pub fn set_entries(&mut self, v: Vec<Entry>) {
        self.entries = v;
    }
    pub fn take_entries(&mut self) -> Vec<Entry> {
        core::mem::take(&mut self.entries)
    }
    pub fn get_commit(&self) -> u64 {
        self.commit
    }
    pub fn set_commit(&mut self, v: u64) {
        self.commit = v;
    }
    pub fn get_commit_term(&self) -> u64 {
        self.commit_term
    }
    pub fn set_commit_term(&mut self, v: u64) {
        self.commit_term = v;
    }
    pub fn has_snapshot(&self) -> bool {
        self.snapshot.is_some()
    }
    pub fn get_snapshot(&self) -> &Snapshot {
        static EMPTY: std::sync::OnceLock<Snapshot> = std::sync::OnceLock::new();
        self.snapshot.as_ref().unwrap_or_else(|| EMPTY.get_or_init(Snapshot::default))
    }
    pub fn mut_snapshot(&mut self) -> &mut Snapshot {
        self.snapshot.get_or_insert_with(Snapshot::default)
    }
    pub fn set_snapshot(&mut self, v: Snapshot) {
        self.snapshot = Some(v);
    }
    pub fn take_snapshot(&mut self) -> Snapshot {
        self.snapshot.take().unwrap_or_default()
    }
    pub fn clear_snapshot(&mut self) {
        self.snapshot = None;
    }
    pub fn get_request_snapshot(&self) -> u64 {
        self.request_snapshot
    }
    pub fn set_request_snapshot(&mut self, v: u64) {
        self.request_snapshot = v;
    }
    pub fn get_reject(&self) -> bool {
        self.reject
    }
    pub fn set_reject(&mut self, v: bool) {
        self.reject = v;
    }
    pub fn get_reject_hint(&self) -> u64 {
        self.reject_hint
    }
    pub fn set_reject_hint(&mut self, v: u64) {
        self.reject_hint = v;
    }
    pub fn get_context(&self) -> &[u8] {
        &self.context
    }
    pub fn set_context(&mut self, v: Vec<u8>) {
        self.context = v;
    }
    pub fn mut_context(&mut self) -> &mut Vec<u8> {
        &mut self.context
    }
    pub fn take_context(&mut self) -> Vec<u8> {
        core::mem::take(&mut self.context)
    }
    pub fn get_deprecated_priority(&self) -> u64 {
        self.deprecated_priority
    }
    pub fn set_deprecated_priority(&mut self, v: u64) {
        self.deprecated_priority = v;
    }
    pub fn get_priority(&self) -> i64 {
        self.priority
    }
    pub fn set_priority(&mut self, v: i64) {
        self.priority = v;
    }
}

impl HardState {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_term(&self) -> u64 {
        self.term
    }
    pub fn set_term(&mut self, v: u64) {
        self.term = v;
    }
    pub fn get_vote(&self) -> u64 {
        self.vote
    }
    pub fn set_vote(&mut self, v: u64) {
        self.vote = v;
    }
    pub fn get_commit(&self) -> u64 {
        self.commit
    }
    pub fn set_commit(&mut self, v: u64) {
        self.commit = v;
    }
}

impl ConfState {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_voters(&self) -> &[u64] {
        &self.voters
    }
    pub fn mut_voters(&mut self) -> &mut Vec<u64> {
        &mut self.voters
    }
    pub fn set_voters(&mut self, v: Vec<u64>) {
        self.voters = v;
    }
    pub fn take_voters(&mut self) -> Vec<u64> {
        core::mem::take(&mut self.voters)
    }
    pub fn get_learners(&self) -> &[u64] {
        &self.learners
    }
    pub fn mut_learners(&mut self) -> &mut Vec<u64> {
        &mut self.learners
    }
    pub fn set_learners(&mut self, v: Vec<u64>) {
        self.learners = v;
    }
    pub fn take_learners(&mut self) -> Vec<u64> {
        core::mem::take(&mut self.learners)
    }
    pub fn get_voters_outgoing(&self) -> &[u64] {
        &self.voters_outgoing
    }
    pub fn mut_voters_outgoing(&mut self) -> &mut Vec<u64> {
        &mut self.voters_outgoing
    }
    pub fn set_voters_outgoing(&mut self, v: Vec<u64>) {
        self.voters_outgoing = v;
    }
    pub fn take_voters_outgoing(&mut self) -> Vec<u64> {
        core::mem::take(&mut self.voters_outgoing)
    }
    pub fn get_learners_next(&self) -> &[u64] {
        &self.learners_next
    }
    pub fn mut_learners_next(&mut self) -> &mut Vec<u64> {
        &mut self.learners_next
    }
    pub fn set_learners_next(&mut self, v: Vec<u64>) {
        self.learners_next = v;
    }
    pub fn take_learners_next(&mut self) -> Vec<u64> {
        core::mem::take(&mut self.learners_next)
    }
    pub fn get_auto_leave(&self) -> bool {
        self.auto_leave
    }
    pub fn set_auto_leave(&mut self, v: bool) {
        self.auto_leave = v;
    }
}

impl ConfChange {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_change_type(&self) -> ConfChangeType {
        self.change_type()
    }
    pub fn get_node_id(&self) -> u64 {
        self.node_id
    }
    pub fn set_node_id(&mut self, v: u64) {
        self.node_id = v;
    }
    pub fn get_context(&self) -> &[u8] {
        &self.context
    }
    pub fn set_context(&mut self, v: Vec<u8>) {
        self.context = v;
    }
    pub fn mut_context(&mut self) -> &mut Vec<u8> {
        &mut self.context
    }
    pub fn take_context(&mut self) -> Vec<u8> {
        core::mem::take(&mut self.context)
    }
    pub fn get_id(&self) -> u64 {
        self.id
    }
    pub fn set_id(&mut self, v: u64) {
        self.id = v;
    }
}

impl ConfChangeSingle {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_change_type(&self) -> ConfChangeType {
        self.change_type()
    }
    pub fn get_node_id(&self) -> u64 {
        self.node_id
    }
    pub fn set_node_id(&mut self, v: u64) {
        self.node_id = v;
    }
}

impl ConfChangeV2 {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get_transition(&self) -> ConfChangeTransition {
        self.transition()
    }
    pub fn get_changes(&self) -> &[ConfChangeSingle] {
        &self.changes
    }
    pub fn mut_changes(&mut self) -> &mut Vec<ConfChangeSingle> {
        &mut self.changes
    }
    pub fn set_changes(&mut self, v: Vec<ConfChangeSingle>) {
        self.changes = v;
    }
    pub fn take_changes(&mut self) -> Vec<ConfChangeSingle> {
        core::mem::take(&mut self.changes)
    }
    pub fn get_context(&self) -> &[u8] {
        &self.context
    }
    pub fn set_context(&mut self, v: Vec<u8>) {
        self.context = v;
    }
    pub fn mut_context(&mut self) -> &mut Vec<u8> {
        &mut self.context
    }
    pub fn take_context(&mut self) -> Vec<u8> {
        core::mem::take(&mut self.context)
    }
}
