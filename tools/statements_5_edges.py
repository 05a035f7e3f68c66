"""The node's edges: HTTP routing, node-local progress, replay order, connectors, mesh view, small services."""
from statements_4_rules import p, WHY

P = [
    p('H07', 'Every HTTP route reaches its handler with the documented status and type',
      'A GET to /v1/<name> runs exactly that name\'s handler and a POST to validateMessage, submitMessage or submitBulkMessages its own; any other path or method answers 404, and every answer carries the configured CORS origin. A request whose query or body does not parse answers 400; a handler error answers the status it names, else 400, as JSON; a result answers 200 as application/json. POST bodies must be application/octet-stream (bulk too), else 400. The mesh view defaults to validators only and JSON; validators_only=false or 0 widens it, crawl=true or 1 crawls, format=ascii answers text/plain; the caller\'s Authorization header is passed on, an unauthenticated call answers 401, other failures 500.',
      'every method, path, query, header and handler result', ['src/network/http_server.rs'], 'Router::handle, handle_request, handle_protobuf_request, handle_bulk_protobuf_request, handle_mesh_view, the response builders'),
    p('K15', 'Node-local progress is read back under the key it was written with',
      'The last L2 block per chain, the last fname transfer id, the on-chain migration page token of a shard, replication account roots and work units, and proposals by shard, height and round, each live under a key of their own made of the prefix, the kind byte and the big-endian identifying numbers. Writing one touches only its row, and keeps the other fields of a shared row. Reading returns what that row holds, nothing when it is absent, and an error, never a default, when it fails to decode or read.',
      'every chain, shard, fid, height, round and stored row', ['src/storage/store/node_local_state.rs'], 'LocalStateStore getters, setters and key makers', over=['inputs', 'histories']),
    p('O01', 'Replayed system messages come in the chain\'s own order',
      'When a block\'s system messages are replayed, from engine version 21 on those that carry an on-chain event are ordered by block number, then log index, ahead of the ones that carry none, and messages that tie keep their order. Before version 21 they are replayed as listed.',
      'every list of up to three system messages (a stable sort, so any pair decides the order)', ['src/storage/store/block_engine.rs'], 'block_engine_system_messages_for_replay'),
    p('X01', 'Connectors read the right contracts, chains and transfer fields',
      'The storage, key, id and tier registries are the deployed contract addresses, each labelled by its kind; retrying one fid filters that registry\'s own events with the fid in the topic that carries it. Chain ids 1, 10 and 8453 mean Ethereum, Optimism and Base mainnet, and no other id means any. An fname transfer maps field for field into a transfer whose proof carries the same name, owner, fid, timestamp and signature; bad hex is refused, never zeroed. The requesting fid of a signer event is the one decoded from its metadata, none when it does not decode.',
      'every transfer, signer event, chain id, override address and fid', ['src/connectors/fname/mod.rs', 'src/connectors/onchain_events/mod.rs'], 'transfer_to_fname_transfer, get_request_fid_from_signer_event, retry_filters, *_registry, from_chain_id'),
    p('X02', 'The mesh view names, classifies and addresses nodes correctly',
      'A node is looked up by peer id, then by its lowercased consensus key, and a configured node replaces the built-in one that shares either key. A peer counts as validator exactly when its peer id is that of a configured validator key. A node\'s HTTP address is its configured one, else http://host:3381 for an observed public host, with IPv6 bracketed and private, loopback, link-local or unspecified hosts refused. Link states, topic states, rates, labels and topic filters say what the peer record says.',
      'every registry, peer record, address and filter', ['src/network/mesh/nodes.rs', 'src/network/mesh/view.rs', 'src/network/mesh/render.rs', 'src/network/mesh/metrics.rs'], 'NodeRegistry lookup/insert, resolve_http_api_url, is_private_host, classify_mesh_view, link_state, parse_topics'),
    p('X03', 'Pruning cutoffs, gossip settings and snapshot locations follow configuration',
      'Block pruning cuts at now minus the retention (never below zero) and only once sync is complete. Gossip settings change only the field asked, and bootstrap and direct peers are the trimmed entries of their comma-separated lists. Snapshot directories and metadata are per network and shard; uploads run only with both credentials present. Cached replication hashes are keyed by height, shard, fid and either message or event type. Bootstrap starts from its network\'s peer (rho.farcaster.xyz:3383 on mainnet, tau on testnet, none otherwise), and a virtual trie shard keeps the peer it was given.',
      'every configuration, time, list of at most two peers, network and shard', ['src/network/gossip.rs', 'src/storage/db/snapshot.rs', 'src/jobs/block_pruning.rs', 'src/network/replication/replicator.rs', 'src/bootstrap/replication/rpc_client.rs'], 'pruning_cutoff, Config::with_*, snapshot_directory, MessageHashCacheKey, rpc client peer choice'),
]
NA = []
