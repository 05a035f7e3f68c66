"""Rules that decide what a node keeps, how it is keyed and who may ask: storage, routing, channels, keys, answers, validator sets."""
ST = 'src/storage/store/'
AC = ST + 'account/'
TR = 'src/storage/trie/'
WHY = 'Tests exercise a handful of values at ordinary times; a wrong constant, boundary, field or branch shows only for the one cell of inputs that meets it. The rule is over the whole input space of each function.'


def p(id, title, statement, forall, files, mech, why=None, **kw):
    return dict(id=id, title=title, statement=statement, over=kw.pop('over', ['inputs']), forall=forall, why=why or WHY, files=files, mech=[(mech, ', '.join(files))], **kw)


P = [
    p('S01', 'Rented and lent storage counts as the right unit type, for the right time',
      'A rent event\'s units count by block time: before 1724889600 as legacy units, then as 2024 units until the network\'s 2025 cutoff (mainnet 1752685200, others 1752426000), after it as 2025 units. Each kind expires a fixed time after the rent event\'s block time, with the legacy and 2024 kinds carrying their extensions. Lent storage carries the units of the type named (2 is 2025, 1 is 2024, else legacy) and never expires. Merging slots adds units type by type and keeps the earliest expiry; an expired other slot is ignored and an expired own slot is replaced. Subtracting fails rather than going below zero. Reading one type returns that type\'s units.',
      'every rent event, network, block time, unit type and pair of slots', [AC + 'onchain_event_store.rs'], 'StorageSlot: from_event, from_storage_lend, merge, sub, units_for, the cutoffs'),
    p('S02', 'A fid\'s message quota is its units times the limit of that store',
      'Per unit a store holds: legacy units 5000 casts, 2500 reactions, 2500 links, 50 user data, 5 username proofs, 25 verifications; 2024 units 2000, 1000, 1000, 50, 5, 25; 2025 units 100, 200, 200, 25, 2, 5. Link compact states have limit 1 in each. The quota of a store is the sum over the three unit types of units times that limit, and 0 for a type that has no store. Each message type belongs to one store (adds, removes and compact states of a kind together) and a store lists exactly its message types.',
      'every unit count, store type and message type', [ST + 'stores.rs'], 'Limits, StoreLimits, the store-type mappings'),
    p('M01', 'Messages go to their one shard and enter the mempool under fixed limits',
      'Key additions and removals, storage lends and channel messages go to shard 0, verifications too since V21; any other message goes to shard 1 + (first 4 bytes of SHA-256 of the big-endian fid, modulo the shard count). Mempool keys rank validator messages before user messages, then by timestamp, then identity, and the identity is the message hash, or the transaction and log index, transfer id or sequence number. A fid may submit 1 key addition a minute; live-at updates 5000 an hour per storage unit; other messages a tenth of its cast allowance an hour, at least 100; no allowance or an unreadable one refuses. A live-at update replaces another only when it is later.',
      'every message, fid, shard count, version and storage allowance', ['src/mempool/routing.rs', 'src/mempool/mempool.rs'], 'route_message, route_fid, mempool_key, MempoolKey::cmp, the rate limiters and their defaults'),
    p('C01', 'Channel messages mean one state and occupy one slot',
      'A channel update sets only the casting and membership modes it names, an unknown mode is refused. A member action maps to one member state and a moderation action to visible or hidden; unknown or unset actions and other bodies are refused. Each kind has its own slot: update and pin by channel id, membership by channel id and member fid (4 bytes big-endian), moderation by channel id and cast hash. A message counts as a channel message of a type only if declared type and body agree. The channel owner comes from the event that is latest by block number, then transaction index, then log index; owner addresses are 20 bytes, labels 32 and equal to the keccak hash of the channel key.',
      'every channel message and channel owner event', [AC + 'channel_store.rs', AC + 'onchain_event_store.rs'], 'fold_channel_modes, *_for_message, *_slot_suffix, is_channel_message, channel owner helpers'),
    p('K13', 'Messages and their index records are stored and deleted under one key scheme',
      'Storing a message writes exactly one row: its encoding, under user prefix, fid, the postfix of its own type, timestamp and hash; deleting removes exactly that row; a type without a store is refused. A message that carries data bytes is stored without the duplicate parsed data and reads back the same. A username proof is written and deleted under its name key and its fid key (the previous owner\'s fid key goes away); a channel follow under its two index keys. Time filters keep messages from start to stop inclusive, page tokens outside the listed prefix are refused. Scope masks set one bit per message type; a key admits a type only if its mask has that bit. Of two name proofs the later timestamp wins, then the greater signature; of address claims the greatest timestamp-hash, then the lower fid.',
      'every message, key, timestamp and token', [AC + 'message.rs', AC + 'active_key.rs', AC + 'reaction_store.rs', AC + 'username_proof_store.rs', AC + 'user_data_store.rs', AC + 'verification_store.rs', 'src/storage/util.rs'], 'put/delete_message_transaction, message encode/decode, index writers, scope masks, winner rules'),
    p('K14', 'Sync trie nodes, hashes and keys are determined by the data they stand for',
      'A leaf\'s hash is BLAKE3 (20 bytes) of its key; an inner node\'s is that of its child hashes concatenated in ascending child-character order; a node with neither has an empty hash. The stored record of a node holds its key, child characters, item count and child hashes, under the trie prefix and its path. Recomputing a node sets its hash in its parent, or removes it there when it is empty. Every hub event maps to the trie keys it inserts and deletes: each merged or deleted message, on-chain event and name transfer of the event, under keys of its own type, fid and hash; events that change no stored data map to none. Page tokens encode the remaining path in order.',
      'every node, hub event and page token', [TR + 'trie_node.rs', TR + 'merkle_trie.rs', TR + 'util.rs'], 'TrieNode hash/update/put/delete, TrieKey::for_hub_event, encode_trie_page_token'),
    p('R01', 'RPC paging, credentials and error codes follow the request',
      'A request\'s page size, page token and direction reach the store as given; unset ones are unset. Start and stop timestamps bound the listing. Channel listings refuse a page size of 0, above 1000, or a channel id of the wrong width. With no users configured every request is authorised; otherwise only Basic credentials that decode to a configured user name and that user\'s password are. Shard cursors encode every shard in order. Each hub error code and each store, replication and channel error maps to its own status with its message; internal faults are not reported as bad requests. A signer view shows the fields of the record it comes from.',
      'every request, credential, stored record and error', ['src/network/rpc_extensions.rs', 'src/network/server.rs', 'src/core/error.rs', 'src/core/message.rs', 'src/network/replication/error.rs', 'src/bootstrap/replication/error.rs'], 'page_options, authenticate_request, *_to_status, signer_from_*, encode_shard_cursors, the error conversions'),
    p('N01', 'The validator set in force is the configured one for that shard and height',
      'The set used at a height is the stored set with the greatest effective height that is not above it. A configured set is built from its listed public keys, each once, in a deterministic order that does not depend on the listing order, all for the shard asked; a malformed key is never silently skipped. Adding a validator refuses one whose address is already present or of another shard, and keeps the set sorted. A validator exists only if its address is in the set. An address is the bytes of the public key. A proposed value is found by shard and hash only; deciding a height drops the values of that height and every earlier one and keeps later ones.',
      'every configuration, height and proposed value', ['src/consensus/validator.rs', 'src/consensus/consensus.rs', 'src/consensus/proposer.rs', 'src/core/types.rs'], 'StoredValidatorSets, StoredValidatorSet::new, SnapchainValidatorSet, ProposedValues'),
]
NA = []
