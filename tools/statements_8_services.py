"""Small services with a guarantee of their own: batches, defaults, archives, a node's bootstrap."""
from statements_4_rules import p

P = [
    p('B01', 'A transaction batch holds the last write per key',
      'A new batch is empty. Putting sets exactly that key to that value, deleting marks exactly that key deleted, the later of two writes to a key stands, merging another batch applies its writes over this one\'s, and the length is the number of keys written. Nothing else changes.',
      'every key, value and batch', ['src/storage/db/rocksdb.rs'], 'RocksDbTransactionBatch::{new, put, delete, merge, len}', over=['inputs', 'histories']),
    p('F01', 'A setting left out takes its documented default',
      'With nothing configured a node reads registrations and transfers from the production addresses, keeps hub events 3 days and all blocks, replicates every 28800 heights, loads a snapshot on first start unless told otherwise, has discovery, sync and rate limits off, holds 5000 queued and 1000000 pending messages, and uses the stated ports, timeouts and buckets. '
      'No default enables writing snapshots at startup, forcing a reload, or an unlimited mempool.',
      'every configuration record that has a default', ['src/cfg.rs', 'src/consensus/consensus.rs', 'src/mempool/mempool.rs', 'src/mempool/block_receiver.rs', 'src/network/gossip.rs', 'src/storage/db/snapshot.rs', 'src/network/http_server.rs'], 'the Default implementations of the configuration records', over=['configurations']),
    p('F02', 'Configuration layers override in order and keep secrets out of text',
      'A setting comes from the defaults, overridden by the configuration file, overridden by SNAPCHAIN_ environment variables (nested by a double underscore), overridden by the command line; a missing or unreadable file, a file that is no TOML, bad arguments and settings that do not fit are errors. '
      'The error for a file that does not parse names the file, the line and the parser\'s message, never its text, and the file reaches the layered reader only once it has parsed. No code writes the consensus private key, the snapshot secret key, the RPC credentials, or a record holding them, into a log or message.',
      'every outcome of the arguments, the file and the environment; every function of the node', ['src/cfg.rs', 'src/main.rs', 'src/consensus/consensus.rs'], 'load_and_merge_config; every formatting and logging call', technique='abstract interpretation of the loader plus an intra-procedural taint query from secret fields to formatting calls over MIR', why='Tests load a few valid files and never look at what an error or log line contains.', over=['configurations', 'inputs', 'programs']),
    p('W01', 'Snapshot archives split into complete, size-bounded parts',
      'Writing starts a new part when none is open or when the bytes written to the open part plus the ones to write exceed the limit, and never otherwise. Starting one creates the directory if it is missing, finishes the open part, takes the next number, opens chunk_<4 digits>.bin and counts from zero; only bytes the part accepted are counted and reported. '
      'Finishing closes the open part and reports its failure; unpacked files are each moved, under their own name, or the failure is reported.',
      'every buffer, limit, part state and file outcome (lengths at, above and below the limit)', ['src/storage/db/multi_chunk_writer.rs', 'src/bootstrap/replication/service.rs'], 'MultiChunkWriter, move_dir_contents', over=['inputs', 'fault_sequences']),
    p('W02', 'A bootstrapping node keeps only messages their signer signed',
      'Of a page of downloaded trie entries each user message must hash, over its raw data bytes when it has them and over its re-encoded data otherwise, to the hash it carries; a message with neither is refused. Its signature and signer must parse, and the batch of all hashes, signatures and signers, in the same order, must verify. '
      'One failure refuses the whole page; entries that carry no user message need no signature.',
      'every page of at most one entry of each kind and every verification outcome', ['src/bootstrap/replication/service.rs'], 'ReplicatorBootstrap::validate_messages_signatures', over=['inputs', 'fault_sequences']),
    p('W03', 'A bootstrapping node fetches exactly the pages it asks for',
      'A page request names the shard and the snapshot height the node settled on, the trie shard asked for and the page token given, unchanged, and the page returned is what the peer answered to that request. A page fetched ahead is given only for the trie shard and token it was fetched with, once, and an empty token means no token. '
      'The next page is fetched ahead exactly when the page returned names one, under that token. A failing call is repeated as often as configured and then reported as the failure it is. A further peer is used only when it offers a snapshot of the very height in use, and never twice.',
      'every token, cache state, peer answer and failure (snapshot lists and peer lists of at most one entry, at most two attempts)', ['src/bootstrap/replication/rpc_client.rs'], 'RpcClientsManager::get_shard_transactions, call_get_shard_transactions_with_retry, handle_response_and_spawn_next, add_new_peer, get_shard_metadata', over=['inputs', 'fault_sequences']),
    p('P01', 'A malformed message from a peer is refused, never a crash',
      'Whatever bytes a peer sends, by gossip, proposal streaming, status or sync, either decode to a complete message or are refused: a vote, proposal, full proposal, status, sync request or response that lacks a height, a value or a header, names an unknown kind or round, or carries a signer that is no key is an error or is dropped. '
      'Gossip that does not decode, names no valid peer id, or carries a proposal or status without height or a user message without data or with a hash that is not 20 bytes, goes nowhere; every other message reaches the actor of the shard its height names, or the mempool, unchanged. Nowhere is a decoded message or peer id taken on trust.',
      'every byte string a peer can send (decoding partitioned by which fields are present and which lengths hold)', ['src/consensus/malachite/snapchain_codec.rs', 'src/network/gossip.rs', 'src/core/types.rs', 'src/consensus/malachite/host.rs', 'src/consensus/malachite/read_sync.rs'],
      'SnapchainCodec::decode, SnapchainGossip::map_*, is_well_formed, Result::unwrap on decodes', technique='abstract interpretation of the decoders over a partition of field presence, plus a dataflow query over MIR', why='Tests exchange well-formed messages between honest nodes.', over=['inputs', 'fault_sequences']),
]
NA = []
