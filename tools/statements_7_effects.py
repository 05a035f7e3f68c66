"""What code may reach, hold and ignore: determinism, durable writes, locks, allocation sizes, credentials, dropped errors."""
from statements_4_rules import p
ST = 'src/storage/store/'

P = [
    p('D01', 'Applying a block or chunk depends on chain state and the value alone',
      'Replaying, validating or committing a block or shard chunk gives the same outcome on every node. No decision, stored value or returned value on those paths depends on the local clock (times are the block\'s, protocol versions are those of the block\'s time), on randomness, on the process environment, or on the iteration order of a hash map or set, except where every entry is keyed so that the order cannot show. Timing measurements may only feed metrics and logs.',
      'every call path from replay, validation and commit', [ST + 'engine.rs', ST + 'block_engine.rs', ST + 'stores.rs', ST + 'account/store.rs', ST + 'account/onchain_event_store.rs', 'src/storage/trie/trie_node.rs', 'src/core/validations/message.rs', 'src/version/version.rs'],
      'the functions reachable from validate_state_change, replay_*, commit_* and merge_*', over=['inputs', 'histories', 'schedules'], technique='taint analysis of the clock over the call graph of resolved MIR, with a query for randomness and hash-order iteration', why='Two nodes disagree only at particular moments or hash seeds; a test runs on one clock and one seed.'),
    p('D02', 'Only committing, pruning and bookkeeping write to disk',
      'Proposing, validating, replaying and simulating state changes, answering gRPC queries and submissions, serving replicas, merging, deleting and reading records, the mempool, gossip, and message validation never write, delete or commit anything in the database and never write files: merges only fill a transaction batch that the commit later writes. The exceptions are recording a validator\'s own proposal and initialising an engine over a fresh store.',
      'every call path from those entry points', [ST + 'engine.rs', ST + 'block_engine.rs', 'src/network/server.rs', 'src/network/replication/replication_server.rs', 'src/mempool/mempool.rs', 'src/network/gossip.rs', 'src/storage/db/rocksdb.rs', 'src/consensus/proposer.rs'],
      'call graph from the entry points to the database writes', over=['inputs', 'histories', 'crash_points'], technique='effect analysis: reachability of durable writes over the call graph of resolved MIR', why='A stray write shows only after a crash or a refused proposal; tests compare results, not what is durable.'),
    p('D03', 'Locks are taken in one order, never twice, and never across an await',
      'No task can deadlock on the node\'s own locks. A lock that blocks the thread is never held across an await point. No code takes a lock it already holds unless both are reads, and the locks of the database handle, event ids, replication snapshots and caches, bootstrap state and gossip metrics are taken in one order everywhere.',
      'every call path while a guard is held', ['src/storage/db/rocksdb.rs', ST + 'account/event.rs', 'src/network/replication/replication_stores.rs', 'src/network/replication/replicator.rs', 'src/bootstrap/replication/service.rs', 'src/network/mesh/metrics.rs', ST + 'stores.rs'],
      'guard lifetimes and the locks callees take', over=['schedules'], technique='guard-lifetime dataflow and lock-order analysis over the call graph of resolved MIR', why='A deadlock needs a particular interleaving; no test run settles its absence.'),
    p('D04', 'No number read from the wire sizes an allocation unchecked',
      'A count or length that comes out of bytes, text or a message field is bounded by the size of the data itself, or by a fixed limit, before memory is reserved for it. No request, page token, peer message or stored record can make the node allocate far more memory than its own size.',
      'every allocation site and the origin of its size', ['src/storage/trie/util.rs', 'src/network/server.rs', 'src/bootstrap/replication/service.rs', ST + 'account/link_store.rs'],
      'with_capacity, reserve, resize, vec![_; n]', technique='taint analysis from parsed integers and message fields to allocation sizes over MIR', why='Only a hostile length shows it; tests use well-formed tokens and messages.'),
    p('D05', 'Guarded endpoints check credentials before they do anything',
      'Submitting a message or a bulk of messages, reading the mesh view or topology, uploading a snapshot and running the on-chain event migration first check the request\'s credentials. Until they were accepted the handler awaits nothing, sends nothing, spawns nothing, writes nothing and answers no success; refused credentials end the request. The mesh endpoints check the admin credentials, the others the user ones.',
      'every path through each guarded handler', ['src/network/server.rs', 'src/network/admin_server.rs', 'src/network/rpc_extensions.rs'],
      'submit_message, submit_bulk_messages, get_mesh_view, get_mesh_topology, upload_snapshot, run_onchain_events_migration', technique='typestate: effects reachable on the control-flow graph without crossing the accepting edge of the credential test', why='It has to hold on every path through a handler, including ones no test drives.'),
    p('D06', 'A failed write or replay step is never dropped',
      'Every failure of a database write, and of every fallible step of replaying, validating and committing blocks and chunks, is acted on: propagated, turned into a panic, or handled by a branch. None is silently discarded; only telemetry and the event that merely reports a refused message are best effort.',
      'every call whose failure could be dropped', [ST + 'engine.rs', ST + 'block_engine.rs', ST + 'shard.rs', ST + 'block.rs', ST + 'account/store.rs', ST + 'node_local_state.rs', 'src/storage/db/rocksdb.rs', 'src/jobs/block_pruning.rs'],
      'results of calls that write or that replay, validate and commit', over=['inputs', 'crash_points'], technique='dataflow query: every Result of a writing or replaying call is consumed, over MIR', why='Write failures need a failing disk or corrupt row, which tests do not inject at every call.'),
    p('D07', 'A decision made under a lock is acted on under the same guard',
      'A maintenance run (event pruning, block pruning) that claims the shard\'s exclusive flag tests and sets it under one lock guard, so two runs never both proceed, and it clears the flag on every path that returns, so a finished or failed run never locks out later ones. A peer is added to the bootstrap peer list only if the same guard that appends it found it missing, so it is listed at most once however many discoveries of it run at the same time.',
      'every interleaving of callers and every path through the claiming functions', [ST + 'stores.rs', 'src/bootstrap/replication/rpc_client.rs'],
      'prune_events_until, prune_shard_chunks_until, add_new_peer and every other flag set or list appended to behind a lock', over=['schedules'], technique='typestate of lock guards over MIR: test-and-set under one guard, release on every returning path', why='The window between two acquisitions of a lock is hit only by particular schedules; the tests call one at a time or sleep between calls.'),
]
