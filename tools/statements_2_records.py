"""Record layout."""
A = 'src/storage/store/account/'
MSG, CONST = A + 'message.rs', 'src/storage/constants.rs'
WHY = 'Tests write and read back a few records with small fids, so a key built at the wrong width, offset or prefix still round-trips; collisions and mis-ordering need particular pairs of records. The rule is over every value of every identity field.'


def p(id, title, statement, forall, files, mech, why=None, **kw):
    return dict(id=id, title=title, statement=statement, over=['inputs'], forall=forall, why=why or WHY, files=files, mech=[(mech, ', '.join(files))], **kw)


P = [
    p('K01', 'Messages are keyed by author, set and time order',
      'The key of a stored message is the user prefix, the 4-byte big-endian author fid, the set its type belongs to (casts, links, reactions, verifications, user data, username proofs, storage lends and the four channel sets; other types have no set and are refused) and a 24-byte timestamp-hash: 4-byte big-endian timestamp then the 20-byte message hash. Byte order of the keys of one author and set is therefore time order with the hash as tie-break. A hash of any other length is refused, reading a key back splits it at the same offsets, and a cast id is keyed by 4-byte fid then cast hash.',
      'every author fid that fits 32 bits, set, timestamp and hash', [MSG], 'message key builders and readers'),
    p('K02', 'Each stored fact has one state key naming exactly its identity',
      'The key under which the current add or remove of a fact is found names the author, the kind of record and exactly what identifies the fact: the cast hash; the reaction type and target (cast id or URL); the link type (padded to 8 bytes) and target fid; the verified address; the user-data type; the username; the lend recipient. Add and remove keys of one fact differ only in their kind byte, and messages whose body does not belong to the store are refused. Two messages about the same fact get the same key; messages about different facts get different ones.',
      'every message body of the store', [A + f + '.rs' for f in ('cast_store', 'reaction_store', 'link_store', 'verification_store', 'user_data_store', 'username_proof_store', 'storage_lend_store')], 'make_*_key functions of the account stores'),
    p('K03', 'Secondary indexes are keyed by what they are looked up by, then by the record',
      'Index entries begin with the index prefix and what is looked up (the parent cast or URL, the mentioned fid, the reaction or link target, the verified address) and end with the identity of the indexed record, ordered by time where the index enumerates records; the prefix used for a scan is a prefix of every entry it must find.',
      'every looked-up value and indexed record', [A + f + '.rs' for f in ('cast_store', 'reaction_store', 'link_store', 'verification_store', 'username_proof_store')], 'by-parent, by-mention, by-target, by-address and by-name index keys'),
    p('K04', 'On-chain events and fname proofs are keyed by type, fid, block and log position',
      'An on-chain event is keyed by its type, the 4-byte fid, the 4-byte block number and the 4-byte log index, all big-endian, so a scan returns a fid\'s events in chain order. Signers, id registrations, channel registrations (by key, by label hash and by owner) and fname proofs (by name and by fid) have their own prefixes. A channel key is accepted for a label only if the label is its Keccak-256 hash.',
      'every event and name', [A + 'onchain_event_store.rs', A + 'name_registry_events.rs'], 'on-chain event, channel registration and fname key builders'),
    p('K05', 'Chain and node-local records are keyed in fixed-width big-endian order',
      'Blocks, shard chunks, block events and hub events are keyed by prefix and 8-byte big-endian number, their time indexes by 4-byte shard and 8-byte time, trie nodes by their nibble path, and stored proposals by 4-byte shard, 8-byte height and 8-byte round, so that byte order is numeric order and deleting a height removes exactly that height\'s proposals.',
      'every height, shard, time, round and path', ['src/storage/store/block.rs', 'src/storage/store/shard.rs', A + 'block_event_store.rs', A + 'event.rs', 'src/storage/store/node_local_state.rs', 'src/storage/trie/trie_node.rs'], 'block, shard, event, trie-node and proposal key builders'),
    dict(id='K06', title='Event ids are unique and ordered by height then position in the block',
         statement='An event id is its block height times 2^14 plus its sequence number in the block. Sequence 0 belongs to the block-confirmation event alone: other events of a height get 1, 2, 3 and so on in the order they are produced, and producing the confirmation event does not consume a number. A height or sequence number that does not fit is refused rather than wrapped, and decomposing an id returns what it was composed from.',
         over=['inputs', 'histories'], forall='every height, sequence number and event type', why='Tests generate a few ids at small heights; collisions appear only at field boundaries or after particular event orders.', files=[A + 'event.rs'], mech=[('HubEventIdGenerator', A + 'event.rs')]),
    p('K07', 'The state commitment places each record under its own trie key',
      'Each record in a shard\'s state trie has the key: one byte derived from the fid alone (the first 4 bytes of the SHA-256 of the fid, modulo 256), the 4-byte fid, one type byte, and the record\'s identity. On-chain events use type bytes below 7 with transaction hash and log index; fnames use 7 and the name padded with zeros to 20 bytes; messages use their type number times eight and their hash. A storage lend is entered twice, under lender and borrower; every other message once. Decoding a key gives the same parts back and refuses keys shorter than 12 bytes.',
      'every record', ['src/storage/trie/merkle_trie.rs'], 'TrieKey builders and decoder'),
    p('K08', 'Gasless keys, nonces and last-use times have one record per fid and key',
      'A gasless key record is keyed by fid and the full 32-byte public key, its owner by the public key alone, its last-use time by fid and key, and the per-fid key count, user nonce and app nonce by fid, each under its own prefix; a public key of any length other than 32 is refused.',
      'every fid and public key', [A + 'key_add_store.rs', A + 'key_nonce_store.rs', A + 'key_last_used_at_store.rs'], 'key builders'),
    p('K09', 'Channel state has one slot per channel fact, whoever wrote it',
      'The slot of a channel update or pin is keyed by the channel id, of a membership by channel id and member fid, of a moderation by channel id and cast hash, each under its own index byte, independent of the author; the author\'s row is keyed by author fid, record kind and the slot; the slot pointer is the author fid followed by the 24-byte timestamp-hash; membership is also indexed by member fid then channel id. A fid that does not fit 32 bits is refused, never truncated.',
      'every channel id, fid, cast hash and author', [A + 'channel_store.rs'], 'channel slot key builders'),
    p('K11', 'Byte-string comparison, increment and nibble coding are exact',
      'Keys are compared lexicographically as unsigned bytes, a proper prefix being the smaller. The successor of a key is the same-length string one greater as a big-endian number, and all-0xff becomes 1 followed by as many zero bytes. Expanding bytes to nibbles gives the high nibble first, and combining nibbles undoes it.',
      'every byte string of up to 4 bytes compared, incremented or expanded, byte values unconstrained', ['src/storage/util.rs', 'src/storage/trie/util.rs'], 'bytes_compare, increment_vec_u8, expand_nibbles, combine_nibbles'),
    p('K12', 'Record prefixes and kind bytes are distinct and never renumbered',
      'No two record families share a prefix byte, no two record kinds under a user share a kind byte, and the published numbers of both, on which every existing database depends, do not change.',
      'every pair of families and kinds', [CONST], 'RootPrefix and UserPostfix enumerations', technique='exhaustive comparison of the compiled enumerations with the published table'),
]
