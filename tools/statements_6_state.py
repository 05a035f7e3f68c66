"""How a data shard's state changes: which message wins, what a merge writes, how a transaction replays, when a chunk commits."""
from statements_4_rules import p
ST = 'src/storage/store/'
AC = ST + 'account/'

P = [
    p('G01', 'Which of two conflicting messages wins is fixed by type, time and hash alone',
      'Of two messages for one slot the later timestamp wins; on equal timestamps a remove beats an add, and otherwise the greater hash wins. A merge finds the add and, where its store has removes, the remove of the same slot: an equal stored message makes the merge a duplicate, a winning stored one a conflict, and every losing one is replaced. Compact states replace the older adds of their type they do not list. Each store names its own message types, key postfix and whether it has removes or compact states. A name proof that takes a name from another owner drops that owner\'s record.',
      'every pair of messages of every store', [AC + 'store.rs'] + [AC + x + '_store.rs' for x in ('cast', 'reaction', 'link', 'user_data', 'verification', 'username_proof', 'storage_lend', 'channel')], 'StoreDef::message_compare, get_merge_conflicts, event args, compact-state rules and each store\'s own overrides', over=['inputs', 'histories']),
    p('G02', 'A merge, prune or revoke changes exactly its own rows and emits its event',
      'Merging an add stores it and its index rows, deletes every conflicting message with its index rows, and emits one merge event naming both; merging a remove stores it and deletes what it removes; a compact state deletes the adds it no longer lists. Nothing is written when the merge is refused. Pruning deletes stored messages oldest first, only while the count is above the limit, one prune event each; revoking deletes the message with its index rows and emits a revoke event; revoking a signer touches only that signer\'s messages. Adds and removes are read back under the slot key they were written with.',
      'every message, stored slot and limit', [AC + 'store.rs'], 'Store: merge*, prune_messages, revoke*, put/delete transactions, get_add, get_remove', over=['inputs', 'histories']),
    p('G03', 'A transaction replays system messages, then user messages, then prunes',
      'On-chain events, name transfers and block events are applied before user messages; each user message is validated, then merged, in order, and one that fails leaves a merge failure and no effect on the others. Every event produced is applied to the trie. A signer removal revokes that signer\'s messages; a block event is applied only when its sequence number is the next one. Within user messages, verifications come first, then name proofs, then the user data that depends on them, then the rest, each by timestamp. Each message type merged is pruned afterwards. The result is the account root after all of it, the events in order, the failures and the last sequence number.',
      'every transaction of up to two messages, every outcome of each step', [ST + 'engine.rs'], 'ShardEngine::replay_snapchain_txn', over=['inputs', 'histories']),
    p('G04', 'A shard commits only what replays to the agreed roots, then announces it',
      'A proposal replays its transactions in order with the block\'s timestamp and version; a differing account root or shard root refuses it, and proposing or validating leaves the trie as it was. At commit the cached result is used only if its shard root and block-event hash both match, else the chunk is replayed, and a failing replay stops the node. Events go out only after the database commit, the block confirmation first. Each message type goes to its own store, gated by the version in force; a block event of a feature not yet active is refused. Removing a verification revokes the primary address it backed. Mempool transactions of a fid without active storage lose their user messages.',
      'every proposal, chunk, message type, version and outcome of each step', [ST + 'engine.rs'], 'ShardEngine: prepare/replay/validate/commit, merge_message, handle_block_event, handle_delete_side_effects', over=['inputs', 'histories', 'crash_points']),
    p('G05', 'Merging a record writes exactly the index rows that deleting it removes',
      'For every store, the secondary rows put when a record is merged (casts by parent and mention, reactions and links by target, follows by channel, verifications by address, lends by borrower) are keyed by the looked-up thing, then time order, then author, and carry the stated value. Deleting the record deletes exactly the same rows. Each store builds its add, remove and compact-state keys from the fields that identify a record and refuses a message without them',
      'every message of every store, up to two mentions per cast', [AC + x + '_store.rs' for x in ('cast', 'reaction', 'link', 'user_data', 'verification', 'username_proof', 'storage_lend', 'channel')], 'StoreDef::{build,delete}_secondary_indices, {build,delete}_follow_index, make_*_key', over=['inputs', 'histories']),
    p('G06', 'A channel slot holds the latest admitted message, within its counters',
      'A channel message replaces whatever its slot held, in admission order and regardless of timestamps; the identical message is a duplicate. A slot that was empty counts against its cap, and the channel\'s live-moderator count moves by exactly the change of moderator status; at zero its row is deleted. A failed check leaves nothing behind, and reads return the slot\'s message or the state it states',
      'every channel message, incumbent and counter value', [AC + 'channel_store.rs'], 'merge_slot, ChannelSlotStoreDef impls, slot and member readers', over=['inputs', 'histories']),
    p('G07', 'Gasless keys, owners, counts and nonces move together',
      'A key is added only with a fresh signed request from the requesting user\'s custody address, a custody authorisation by the user himself, no on-chain signer or other owner for the key, room under the key limit, and a nonce above the stored one; then record, owner, last use and count are all written. Removal by the custody address or by the key itself deletes all of them. A use of a key past its lifetime is refused, and its last-use time moves forward only, by steps of more than five minutes',
      'every key message and every stored key, nonce and count', [AC + x for x in ('key_add_store.rs', 'key_nonce_store.rs', 'key_last_used_at_store.rs', 'gasless_key_merge.rs', 'active_key.rs')], 'merge_key_add, merge_key_remove, check_and_bump_last_used_at, check_and_set_*_nonce', over=['inputs', 'histories']),
    p('G08', 'On-chain events are stored once and build the registries they imply',
      'An on-chain event already stored is a duplicate unless its type resolves conflicts; otherwise it is stored under its type, user, block and log position. Id registrations, signers and channel registrations then update their registry row only if the event is the later one by block and log index; a signer removal removes the signer. Channel keys are listed by owner address, move with ownership, and expire with their registration',
      'every on-chain event and registry state', [AC + 'onchain_event_store.rs'], 'merge_onchain_event, build_secondary_indices*, fold_channel_register_replica, getters', over=['inputs', 'histories']),
    p('G09', 'Blocks, chunks and events are stored by height and read back in order',
      'A block, shard chunk, block event or hub event is stored under its height, sequence number or id, with the timestamp row that points to its height. First, last, by-height and ranged reads return what is stored there, page by page, and a missing row is None, a corrupt one an error. The next event id and height continue from the stored maximum',
      'every stored row and page request', [ST + 'block.rs', ST + 'shard.rs', AC + 'block_event_store.rs', 'src/storage/store/account/event.rs', ST + 'stores.rs'], 'BlockStore, ShardStore, BlockEventStore, HubEvent store fns, Stores', over=['inputs', 'histories']),
    p('G10', 'Account reads return the stored record of exactly that key, page by page',
      'Reading an add, a remove or a compact state looks up the key built from the caller\'s user and identifying fields and returns the stored message, none, or an error when the row is corrupt. Listings scan exactly the user\'s or target\'s key range, skip what the caller filtered out, stop at the page size, and hand back the last key as token only then',
      'every read of every store, ranges of up to one row', [AC + x + '_store.rs' for x in ('cast', 'reaction', 'link', 'user_data', 'verification', 'username_proof', 'storage_lend')], 'get_* of each store', over=['inputs', 'histories']),
    p('N02', 'Consensus messages are signed, encoded and decoded without loss',
      'Votes, proposals and proposal parts are signed over their canonical bytes and verified with the same bytes and the signer\'s key. Converting one to its wire form and back keeps height, round, value, type and signer. The codec encodes and decodes each kind of consensus message as that kind, and refuses bytes that are not one',
      'every vote, proposal and sync message', ['src/core/types.rs'], 'SnapchainValidatorContext, SnapchainCodec, Vote, Proposal', over=['inputs']),
    p('N03', 'A validator proposes, accepts and decides only the next height of its shard',
      'A proposal links to the last committed block or chunk, carries the engine\'s roots, and its hash is that of its header; a proposal saved for that height and round is proposed again. A received one is valid only if it is of the shard\'s kind, one above the confirmed height, of this network and protocol version, with the witness hash of its witnesses, and replays to its roots. A decided value must be one seen as a proposal; it is published, committed and the height\'s proposals are forgotten',
      'every proposal, height, certificate and engine answer', ['src/consensus/proposer.rs', 'src/consensus/validator.rs'], 'ShardProposer, BlockProposer, ShardValidator', over=['inputs', 'schedules']),
    p('N04', 'A read node applies only quorum-signed blocks, in height order',
      'A decided value is applied only if its certificate meets the quorum of that height\'s validators, with every signature valid and from a distinct one of them; a block with the wrong protocol version also stops the node. The next height is committed at once and buffered ones follow; a later height is buffered up to the limit; an earlier one is dropped',
      'every decided value, up to two validators and signatures', ['src/consensus/read_validator.rs', 'src/core/util.rs'], 'ReadValidator::process_decided_value, verify_signatures', over=['inputs', 'histories']),
]
NA = []
