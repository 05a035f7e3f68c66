"""The functions decided whole by table (props/p_s.py): which function, over which base cells, with which callees as named answers."""
import re
def lens(q, *ns, **base):
    return [{**base, 'len(%s)' % q: n} for n in ns]


ACTIVE = [r'StorageSlot::is_active$', 'bool', 'active', [0]]
GROUPS = {}
U = 'unit_type'
GROUPS['storage_units'] = {
    'from_event': dict(fn=r'StorageSlot::from_event$'),
    'from_storage_lend': dict(fn=r'StorageSlot::from_storage_lend$'),
    'new': dict(fn=r'StorageSlot::new$'),
    'units_for': dict(fn=r'StorageSlot::units_for$'),
    'cutoff_2024': dict(fn=r'unit_type_2024_cutoff$'),
    'cutoff_2025': dict(fn=r'unit_type_2025_cutoff$'),
    'merge': dict(fn=r'StorageSlot::merge$', oracles=[ACTIVE]),
    'sub': dict(fn=r'StorageSlot::sub$', oracles=[ACTIVE]),
}
GROUPS['storage_limits'] = {
    'legacy': dict(fn=r'Limits::legacy$'), 
    'of_type': dict(fn=r'stores::Limits::of_type$'), 'for_store_type': dict(fn=r'stores::Limits::for_store_type$'),
    'message_type_to_store_type': dict(fn=r'message_type_to_store_type$'), 'store_type_to_message_types': dict(fn=r'store_type_to_message_types$'),
    'default': dict(fn=r'StoreLimits as .*Default>::default$|StoreLimits::default$'), 'for_type': dict(fn=r'StoreLimits::for_type$'), 'max_messages': dict(fn=r'StoreLimits::max_messages$'),
}
GROUPS['routing'] = {
    'route_message': dict(fn=r'routing::.*route_message$', oracles=[[r'::route_fid$', 'value', 'route_fid', [1, 2]]]),
    'route_fid': dict(fn=r'ShardRouter.*::route_fid$'),
}
MAPS0 = [r'(BTree|Hash)Map::(<.*>::)?get(_mut)?$', 'value', 'get', [0, 1]]
GAUGE = [r'StatsdClientWrapper::(gauge|count|time)\w*$', 'unit']
CACHE = [r'::(optionally_)?get_with$', 'cached']
LIM = [GAUGE, CACHE, MAPS0, [r'::get_storage_limits$', 'value', 'limits', [0, 1]], [r'::route_fid$', 'value', 'route_fid', [1, 2]]]
GROUPS['mempool'] = {
    'user key': dict(fn=r'Message as snapchain::mempool::mempool::MessageMempoolExt>::mempool_key$'), 'validator key': dict(fn=r'ValidatorMessage.*mempool_key$'),
    'key': dict(fn=r'MempoolMessage>::mempool_key$'),
    'rank': dict(fn=r'MempoolKey.*::cmp$'), 'is_key_add': dict(fn=r'mempool::.*is_key_add$'), 'is_live_at': dict(fn=r'is_live_at$'), 'live_at_lww_compare': dict(fn=r'live_at_lww_compare$', kvrows=1),
    'key-add limit': dict(fn=r'KeyAddRateLimits::consume_for_fid$', oracles=[GAUGE, CACHE]), 'live-at limit': dict(fn=r'LiveAtRateLimits::consume_for_fid$', oracles=LIM), 'user limit': dict(fn=r'::RateLimits::consume_for_fid$', oracles=LIM, bases=lens('limits(get(self.shard_stores, route_fid(fid, self.num_shards)).Some, fid).Ok.limits', 0, 1)),
    'key-add cache': dict(fn=r'KeyAddRateLimits::new$'), 'live-at cache': dict(fn=r'LiveAtRateLimits::new$'), 'user cache': dict(fn=r'::RateLimits::new$'), 'config': dict(fn=r'mempool::Config as .*default$'), 'limits config': dict(fn=r'RateLimitsConfig as .*default$'),
}
GROUPS['channel_rules'] = {n: dict(fn=r'channel_store::.*%s$' % n) for n in ('fold_channel_modes', 'member_state_for_message', 'moderation_state_for_message', 'update_slot_suffix', 'member_slot_suffix', 'pin_slot_suffix', 'moderate_slot_suffix', 'when_channel_messages_enabled', 'writes_derived_indices')}
GROUPS['channel_rules'].update({n: dict(fn=r'onchain_event_store::%s$' % n) for n in ('channel_owner_from_event', 'incoming_channel_event_is_older', 'validate_channel_label', 'set_channel_owner_event_position', 'signer_body', 'validate_channel_owner_address', 'validate_channel_key_label', 'validate_evm_address')})
GROUPS['store_helpers'] = {n: dict(fn=r'%s$' % n) for n in ('::is_message_in_time_range', 'require_page_token_in_prefix', 'message_encode', 'message_bytes_decode', 'read_ts_hash', 'ActiveKey::admits', 'message_type_bit', 'follow_channel_id', '::for_merge', 'vec_to_u8_24', 'make_event_id_for_block_number')}
def fns(mod, names, **kw):
    return {n: dict(fn=r'\b%s\b.*::%s$' % (mod, n), many=True, **kw) for n in names.split()}


GROUPS['rpc_pages'] = fns('rpc_extensions', 'as_response page_options timestamps')
GROUPS['rpc_helpers'] = fns('network::server', 'simulate_error_to_hub_error username_for_fname_recovery signer_store_error_to_status channel_member_state_to_proto channel_member_state_from_proto channel_page_options require_nonzero_page_size require_channel_id_width channel_store_error_to_status signer_from_onchain_event signer_from_gasless_record')

GROUPS['validator_sets'] = {
    'set at height': dict(fn=r'StoredValidatorSets::get_validator_set$', bases=lens('self.sets', 1, 2, 3)),
    'a configured set': dict(fn=r'StoredValidatorSet::new$', bases=lens('config.validator_public_keys', 0, 1, 2)),
    'add': dict(fn=r'SnapchainValidatorSet::add$', bases=lens('self.validators', 0, 1, 2)),
    'exists': dict(fn=r'SnapchainValidatorSet::exists$', bases=lens('self.validators', 0, 1, 2)),
    'to_stored_validator_sets': dict(fn=r'Config::to_stored_validator_sets$', bases=lens('self.validator_sets.Some', 0, 1, 2), oracles=[[r'StoredValidatorSet::new$', 'value', 'stored_set', [0, 1]]]),
    **fns('core::types', 'shard_id to_hex to_vec from_vec prefix proposer_address public_key'),
    **fns('consensus::Config', 'keypair with get_validator_set_config'),
}
MAPS = [[r'(BTree|Hash)Map::<.*>::insert$|(BTree|Hash)Map::insert$', 'effect', 'insert', [0, 1, 2]], [r'(BTree|Hash)Map::(<.*>::)?get(_mut)?$', 'value', 'get', [0, 1]], [r'(BTree|Hash)Map::(<.*>::)?remove$', 'effect', 'remove', [0, 1]], [r'(BTree|Hash)Map::(<.*>::)?contains_key$', 'bool', 'has', [0, 1]]]
GROUPS['proposals'] = {**fns('consensus::proposer::ProposedValues', 'add_proposed_value get_by_shard_hash', oracles=MAPS), **fns('consensus::proposer::ProposedValues', 'count new'), 'decide': dict(fn='ProposedValues::decide$', bases=lens('self.values_by_height', 0, 1, 2), oracles=MAPS, pats=[[r'^len\(remove\(.*\)\.Some\)$', 1]])}
GROUPS['auth'] = {'authenticate_request': dict(fn=r'authenticate_request$', oracles=[[r'MetadataValue::.*to_str$', 'value', 'to_str', [0]]]), 'encode_shard_cursors': dict(fn='encode_shard_cursors$', bases=lens('cursors', 0, 1, 2))}
GROUPS['errors'] = {**fns('core::error::HubError', 'unavailable not_found invalid_internal_state duplicate rate_limited invalid_parameter validation_failure internal_db_error'), **fns('core::message', 'new_event from_validation_error'), 'message_hash': dict(fn=r'core::util::calculate_message_hash$'),
    'replication': dict(fn=r'replication::error::.*::from$', many=True)}

GROUPS['channel_rules']['is_channel_message'] = dict(fn=r'channel_store::is_channel_message$', bases=[{'discr(expected_type)': v} for v in (1, 15, 16, 17, 18, 19, 20, 21)])
GROUPS['store_helpers'].update(fns('account', 'put_message_transaction delete_message_transaction put_username_proof_transaction delete_username_proof_transaction insert_follow remove_follow username_proof_compare', kvrows=1))
GROUPS['store_helpers'].update({
    'scopes': dict(fn='compute_scopes_mask$', bases=lens('scopes', 0, 1, 2)),
    'scope and ttl': dict(fn='extract_scope_and_ttl$', oracles=[['compute_scopes_mask$', 'value', 'mask', [0]]]),
    'winner': dict(fn='select_verification_address_winner$', bases=lens('candidates', 0, 1, 2)),
    'decrement': dict(fn='decrement_vec_u8$', bases=lens('vec', 0, 1, 2, 3)),
    'height': dict(fn='HubEventIdGenerator::set_current_height$'),
})
TOK = 'from_be_bytes(unbase64(encoded).Ok[0..4])'
GROUPS['trie_pages'] = {'encode': dict(fn='encode_trie_page_token$', bases=[{'discr(token)': 0}] + lens('token.Some', 0, 1, 2, **{'discr(token)': 1})), 'decode': dict(fn='decode_trie_page_token$', bases=[{TOK: n} for n in (0, 1)])}
NAMED = [[r'(BTree|Hash)Map::(<.*>::)?(get|keys|values)$', 'named']]
KH = 'self.child_hashes'
GROUPS['trie_node'] = {**fns('trie_node::TrieNode', 'is_leaf items value delete_to_txn', kvrows=1), 'hash': dict(fn='TrieNode::hash$', oracles=NAMED, bases=[{'len(self.children)': 0}] + [{'len(self.children)': ((1, 256),), 'len(%s)' % KH: n} for n in (0, 1, 2, 3)]),
   'update_hash': dict(fn='TrieNode::update_hash$', oracles=MAPS + [['TrieNode::hash$', 'value', 'hash', [0]]]), 'put_to_txn': dict(fn='TrieNode::put_to_txn$', oracles=NAMED, kvrows=1)}
TK = [[r'TrieKey::for_message$', 'value', 'keys', [0]], [r'TrieKey::for_onchain_event$', 'value', 'key', [0]], [r'TrieKey::for_fname$', 'value', 'fname_key', [0, 1]]]
B = 'event.body.Some'
MM, UP = B + '.MergeMessageBody', B + '.MergeUsernameProofBody'
GROUPS['trie_keys'] = {'merge': dict(fn='TrieKey::for_hub_event$', oracles=TK, bases=[{'discr(event.body)': 1, 'discr(%s)' % B: 0, 'len(%s.deleted_messages)' % MM: n} for n in (0, 1, 2)] + [{'discr(event.body)': 1, 'discr(%s)' % B: v} for v in (1, 2, 4, 5, 6, 7)]),
    'proof': dict(fn='TrieKey::for_hub_event$', oracles=TK, bases=[{'discr(event.body)': 1, 'discr(%s)' % B: 3, 'discr(%s.username_proof_message)' % UP: a, 'discr(%s.deleted_username_proof_message)' % UP: b} for a in (0, 1) for b in (0, 1)])}
NAMED = [[r'(BTree|Hash)Map::(<.*>::)?(get|keys|values)$', 'named']]
GROUPS['connectors'] = {**fns('connectors::fname', 'transfer_to_fname_transfer'), **fns('connectors::onchain_events', 'get_request_fid_from_signer_event map_signer_fid_to_name from_chain_id for_chain storage_registry key_registry id_registry tier_registry event_kind parse_override_address retry_filters namehash')}
GROUPS['mesh'] = {**fns('mesh::nodes', 'unknown as_str to_known builtin from_config lookup len insert remove_existing resolve_http_api_url host_from_multiaddr is_private_host is_private_v4 bracket_if_ipv6'), **fns('mesh::cache', 'disabled status_from_arc'), **fns('mesh::crawl', 'unreachable_node'), **fns('mesh::diagnostics', 'decode_err'),
  **fns('mesh::metrics', 'record_message refresh_rates rates_for remove_peer'), **fns('mesh::view', 'peer_id_from_validator_hex build_validator_peer_ids classify_mesh_view')}
GROUPS['mesh_render'] = fns('mesh::render', 'parse_topics annotate merge_annotations operator_label role_label peer_str hex_or_null short_peer node_type_label network_name link_state has_link has_consensus_link topic_state mesh_cell rate_for_topic topic_tag col_tag render_mesh_view mesh_view_json render_topology topology_json')
GROUPS['misc'] = {**fns('jobs', 'pruning_cutoff'), **fns('replicator', 'new_for_user_message new_for_onchain_event get insert', oracles=MAPS), **fns('gossip::Config', 'with_address with_bootstrap_peers with_contact_info_interval with_bootstrap_reconnect_interval with_announce_address with_announce_rpc_address with_direct_peers bootstrap_addrs direct_peers default'),
  **fns('contract_signature', 'is_valid'), **fns('core::util', 'get_farcaster_time current into'), **fns('engine_metrics', 'proposal_source_tags'), **fns('snapshot', 'snapshot_upload_enabled snapshot_directory metadata_path'), **fns('multi_chunk_writer', 'next_part finish write flush new'),
  **fns('http_server', 'mesh_grpc_request text_plain_ok json_ok html_ok mesh_error_response parse_bulk_protobuf_request'), **fns('replication::service', 'get_snapshot_rocksdb_dir from_metadata'), **fns('rpc_client', 'shard_id add_new_peer get_peer_for_vts get_initial_peers', oracles=MAPS), **fns('block_engine', 'counter_mut block_engine_system_messages_for_replay')}
RT = 'http_server::Router::<Service>::'
GROUPS['http_router'] = {n: dict(fn=RT + n + '$', env='http') for n in ('handle_request', 'handle_protobuf_request', 'handle_bulk_protobuf_request', 'handle_mesh_ui', 'parse_request', 'parse_protobuf_request', 'parse_bulk_protobuf_request')}
del GROUPS['http_router']['handle_mesh_ui']
_routes = 'info fids castById castsByFid castsByMention castsByParent reactionById reactionsByFid reactionsByCast reactionsByTarget linkById linksByFid linksByTargetFid userDataByFid storageLimitsByFid userNameProofByName userNameProofsByFid verificationsByFid onChainSignersByFid signer signersByFid onChainEventsByFid channelOwner channelsByAddress channelsByFid channelMember channelMembers channelPin channelModerations channelMetadata channelMembershipsByFid channelFollowers channelFollowerCount channelFollows isFollowingChannel onChainIdRegistryEventByAddress fidAddressType events eventById currentPeers mesh mesh/ui'.split()
_eq = lambda r: 'eq("/v1/%s",path(uri(req)))' % r
_done = [[r'^discr\(await (?:answer|handle_mesh\w*)\(.*\)\)$', 0], [r'^eq\("', 0]]
GROUPS['http_routes'] = {'GET ' + r: dict(fn=RT + 'handle$', env='http', bases=[{'discr(method(req).0)': 1, _eq(r): 1}], pats=_done) for r in _routes}
GROUPS['http_routes'].update({'POST ' + r: dict(fn=RT + 'handle$', env='http', bases=[{'discr(method(req).0)': 2, _eq(r): 1}], pats=_done) for r in ('validateMessage', 'submitMessage', 'submitBulkMessages')})
GROUPS['http_routes']['elsewhere'] = dict(fn=RT + 'handle$', env='http', bases=[{'discr(method(req).0)': ((0, 10),), **{_eq(r): 0 for r in _routes + ['validateMessage', 'submitMessage', 'submitBulkMessages']}}], pats=_done)
GROUPS['http_routes']['other methods'] = dict(fn=RT + 'handle$', env='http', bases=[{'discr(method(req).0)': v, _eq(r): 1} for v, r in ((2, 'info'), (1, 'submitMessage'), (3, 'castById'), (0, 'mesh'), (4, 'fids'), (5, 'events'))], pats=_done)
GROUPS['http_router']['mesh view'] = dict(fn=RT + 'handle_mesh_view$', env='http', bases=[{'discr(query(uri(req)))': 0}])
GROUPS['http_router'].update({'mesh view ?' + q: dict(fn=RT + 'handle_mesh_view$', env='http', oracles=[['Uri::query$', 'text', q]]) for q in ('', 'format=ascii', 'format=json&crawl=true', 'validators_only=false', 'validators_only=0', 'validators_only=1', 'crawl=0&format=ascii', 'crawl=false', 'format=ascii&topics=all&crawl=1', 'unknown=1&crawl')})
GROUPS['http_router'].update(fns('http_server', 'text_plain_ok json_ok html_ok mesh_error_response mesh_grpc_request', env='http'))
GROUPS['store_helpers'].update(fns('account::store', 'writes_follow_index no_follow_carrier'))
GROUPS['store_helpers']['options'] = dict(fn=r'StoreOptions as std::default::Default>::default$')
GROUPS['local_state'] = fns('LocalStateStore', 'get_latest_block_number get_latest_fname_transfer_id get_onchain_events_migration_page_token get_proposal make_account_root_key make_fname_transfer_primary_key make_height_prefix make_onchain_event_primary_key make_onchain_events_migration_page_token_key make_proposal_key make_work_unit_key put_proposal read_account_root read_work_unit set_latest_block_number set_latest_fname_transfer_id set_onchain_events_migration_page_token write_account_root write_work_unit delete_proposals', kvrows=1)
GROUPS['local_state']['read_account_root']['oracles'] = NAMED
GROUPS['replay_order'] = {'order': dict(fn='block_engine_system_messages_for_replay$', bases=[{'discr(version)': ((0, 20),)}] + lens('system_messages', 0, 1, 2, **{'discr(version)': 21})), 'order of three': dict(fn='block_engine_system_messages_for_replay$', bases=[{'discr(version)': 21, 'len(system_messages)': 3, 'discr(system_messages[0].on_chain_event)': 1, 'discr(system_messages[1].on_chain_event)': 1, 'discr(system_messages[2].on_chain_event)': v} for v in (0, 1)])}
GROUPS['trie_node']['create_empty_root'] = dict(fn='MerkleTrie::create_empty_root$', kvrows=1, oracles=NAMED)

M = GROUPS['mesh']
for _n in ('len', 'remove_existing', 'rates_for', 'insert', 'lookup'):
    M[_n]['oracles'] = NAMED
M['rates_for']['bases'] = lens('topics', 0, 1, 2)
_it = lambda a: 'Multiaddr::iter(parse(%s).Ok)' % a
M['host_from_multiaddr']['bases'] = [{'discr(parse(addr))': 1}] + lens(_it('addr'), 0, 1, 2, **{'discr(parse(addr))': 0})
M['build_validator_peer_ids'].update(bases=lens('hex_keys', 0, 1, 2), oracles=MAPS)
M['classify_mesh_view'].update(bases=lens('view.peers', 0, 1, 2), oracles=NAMED)
R_ = GROUPS['mesh_render']
for _n in ('link_state', 'has_consensus_link', 'topic_state'):
    R_[_n]['bases'] = lens('peer.topics', 0, 1, 2)
R_['rate_for_topic']['bases'] = lens('peer.gossip_rates', 0, 1, 2)
R_['topic_tag']['bases'] = lens('chars(topic)', 0, 1, 2, 3, 4)
R_['parse_topics']['oracles'] = [['text of none', 'value', 'x', []]]
GROUPS['misc']['direct_peers']['bases'] = lens('split(self.direct_peers, ",")', 1, 2)
for _n in ('insert', 'remove_existing', 'build_validator_peer_ids'):
    M[_n]['oracles'] = MAPS
R_['parse_topics']['bases'] = [{'discr(param)': 0}] + lens('split(param.Some, ",")', 1, 2, **{'discr(param)': 1})
R_['short_peer']['bases'] = R_['col_tag']['bases'] = [{'discr(PeerId::from_bytes(peer_id))': 1}] + lens('chars(PeerId::to_base58(PeerId::from_bytes(peer_id).Ok))', 1, 12, **{'discr(PeerId::from_bytes(peer_id))': 0})
M['resolve_http_api_url']['oracles'] = [['nodes::host_from_multiaddr$', 'value', 'host_of', [0]], ['nodes::is_private_host$', 'bool', 'is_private', [0]], ['nodes::bracket_if_ipv6$', 'value', 'bracketed', [0]]]
for _g, _n in (('mesh', 'len'), ('mesh', 'from_config'), ('mesh', 'refresh_rates'), ('mesh_render', 'annotate'), ('mesh_render', 'merge_annotations'), ('mesh_render', 'render_mesh_view'), ('mesh_render', 'mesh_view_json'), ('mesh_render', 'render_topology'), ('mesh_render', 'topology_json'), ('misc', 'insert'), ('misc', 'mesh_grpc_request'), ('connectors', 'namehash'), ('misc', 'get_farcaster_time'), ('misc', 'next_part'), ('misc', 'write'), ('misc', 'add_new_peer')):
    GROUPS[_g].pop(_n, None)
GROUPS['misc']['bootstrap_addrs']['bases'] = lens('split(self.bootstrap_peers, ",")', 1, 2)
R_['short_peer']['bases'] = R_['col_tag']['bases'] = lens('chars(hex::encode(peer_id))', 1, 12, **{'discr(PeerId::from_bytes(peer_id))': 1}) + lens('chars(PeerId::to_base58(PeerId::from_bytes(peer_id).Ok))', 1, 12, **{'discr(PeerId::from_bytes(peer_id))': 0})
for _n in ('link_state', 'has_consensus_link'):
    R_[_n]['bases'] = lens('peer.topics', 0, 1)
for _g, _n in [('mesh', 'record_message'), ('mesh', 'remove_peer'), ('mesh', 'status_from_arc'), ('misc', 'current'), ('misc', 'finish'), ('misc', 'flush')] + [('misc', x) for x in 'text_plain_ok json_ok html_ok mesh_error_response parse_bulk_protobuf_request block_engine_system_messages_for_replay'.split()]:
    GROUPS[_g].pop(_n, None)
GROUPS['store_types'] = {n: dict(fn=r' as snapchain::storage::store::account::store::StoreDef>::%s$' % n, many=True) for n in 'postfix add_message_type remove_message_type compact_state_message_type is_add_type is_remove_type is_compact_state_type remove_type_supported requires_consensus_order_slot_merge'.split()}
SD = r'store::StoreDef::%s$'
SDB = 'is_add_type is_remove_type is_compact_state_type'.split()
DEFS = [[SD % n, 'bool', n, [1]] for n in SDB] + [[SD % n, 'bool', n, []] for n in 'remove_type_supported compact_state_type_supported requires_consensus_order_slot_merge'.split()] + \
    [[SD % n, 'value', n, [1]] for n in 'make_add_key make_remove_key make_compact_state_add_key make_compact_state_prefix read_compact_state_details'.split()] + \
    [[SD % 'postfix', 'value', 'postfix', []], [SD % 'build_secondary_indices', 'effect', 'index', [2, 3]], [SD % 'delete_secondary_indices', 'effect', 'unindex', [2, 3]], [SD % 'build_follow_index', 'effect', 'follow', [3, 4]], [SD % 'delete_follow_index', 'effect', 'unfollow', [3]],
     [SD % 'merge_event_args', 'value', 'merge_event', [1, 2]], [SD % 'revoke_event_args', 'value', 'revoke_event', [1]], [SD % 'prune_event_args', 'value', 'prune_event', [1]], [SD % 'compact_state_add_conflict', 'value', 'compact_conflict', [1, 2]], [SD % 'is_compaction_conflict', 'bool', 'superseded', [1, 2]], [SD % 'get_merge_conflicts', 'value', 'conflicts', [3, 4]],
     ['message::put_message_transaction$', 'effect', 'store', [1]], ['message::delete_message_transaction$', 'effect', 'unstore', [1]], ['message::make_ts_hash$', 'value', 'ts_hash', [0, 1]], ['StoreEventHandler::commit_transaction$', 'effect', 'emit', [2]],
     ['message::get_message$', 'value', 'message_at', [2, 3, 4]]]
ST_ = r'account::store::Store::<T>::%s$'
SC = {n: dict(fn=ST_ % n, oracles=DEFS, kvrows=1) for n in 'get_add get_remove put_add_compact_state_transaction put_add_transaction delete_compact_state_transaction delete_add_transaction put_remove_transaction delete_remove_transaction delete_many_transaction resolve_selector_message get_existing_merge_conflicts merge revoke merge_compact_state merge_add merge_add_with_conflicts merge_remove merge_remove_with_conflicts merge_force_override prune_message prune_messages revoke_messages_by_signer'.split()}
GROUPS['store_core'] = SC
SC['delete_many_transaction']['bases'] = lens('messages', 0, 1, 2)
PRESENT = {'discr(message.data)': 1}
STG = lambda n: r'account::store::Store::(<T>::|<.*>::)?%s$' % n
SUB = {'delete_many_transaction': ['effect', 'drop', [2]], 'put_add_transaction': ['effect', 'put_add', [2, 3, 4]], 'put_remove_transaction': ['effect', 'put_remove', [2, 3]], 'put_add_compact_state_transaction': ['effect', 'put_compact', [2]], 'delete_add_transaction': ['effect', 'drop_add', [2, 3]], 'delete_remove_transaction': ['effect', 'drop_remove', [2]], 'delete_compact_state_transaction': ['effect', 'drop_compact', [2]],
   'merge_add': ['effect', 'merge_add', [1, 2, 4]], 'merge_remove': ['effect', 'merge_remove', [1, 2]], 'merge_compact_state': ['effect', 'merge_compact', [1]], 'merge_add_with_conflicts': ['effect', 'merge_add_over', [1, 2, 4, 5]], 'merge_remove_with_conflicts': ['effect', 'merge_remove_over', [1, 2, 4]], 'get_existing_merge_conflicts': ['value', 'existing', [1]], 'resolve_selector_message': ['value', 'pointed', [2, 3]],
   'prune_message': ['effect', 'prune', [1]], 'revoke': ['effect', 'revoke', [1]]}
for _n, _d in SC.items():
    _d['oracles'] = [[STG(k)] + v for k, v in SUB.items() if k != _n] + [['FollowIndexGate::for_merge$', 'value', 'gate', [0]]] + DEFS
    if _n not in ('delete_many_transaction', 'prune_messages', 'revoke_messages_by_signer', 'get_add', 'get_remove', 'resolve_selector_message'):
        _d['bases'] = [PRESENT]
SC['delete_many_transaction']['bases'] = [{'len(messages)': 0}, {'len(messages)': 1, 'discr(messages[0].data)': 1}, {'len(messages)': 2, 'discr(messages[0].data)': 1, 'discr(messages[1].data)': 1}]
_cf = 'existing(message).Ok'
SC['merge_force_override']['bases'] = [{**PRESENT, 'discr(existing(message))': 1}] + lens(_cf, 0, 1, 2, **PRESENT, **{'discr(existing(message))': 0})
_s = lambda i: 'discr(stored(rowval%d(bytes(0x03 ++ be32((fid as u32)) ++ be8(postfix())))).data)' % i
for _n in ('prune_messages', 'revoke_messages_by_signer'):
    SC[_n].update(bases=[{_s(0): 1, _s(1): 1}], kvrows=2)
SC['delete_many_transaction']['oracles'] = [o for o in SC['delete_many_transaction']['oracles']]

_w = lambda i: 'discr(stored(rowval%d(bytes(0x03 ++ be32((read_compact_state_details(message).Ok.fid as u32)) ++ be8(postfix())))).data)' % i
_m = lambda *a: {'discr(stored(make_compact_state_add_key(message).Ok).data)': 1}
SC['merge_compact_state'].update(bases=[{**PRESENT, _w(0): 1, **_m()}], kvrows=1)
for _n in ('merge_compact_state', 'prune_messages', 'revoke_messages_by_signer'):
    SC[_n]['oracles'] = SC[_n]['oracles'] + [['::increment_vec_u8$', 'value', 'next', [0]]]
_def = [o for o in DEFS if not re.search('get_merge_conflicts|_event_args', o[0])]
_mc = r'message::message_compare$'
GROUPS['store_rules'] = {**{n: dict(fn=SD % n, oracles=_def) for n in 'message_compare merge_event_args revoke_event_args prune_event_args remove_type_supported compact_state_type_supported requires_consensus_order_slot_merge compact_state_add_conflict is_compaction_conflict read_compact_state_details'.split()},
   'get_merge_conflicts': dict(fn=SD % 'get_merge_conflicts', oracles=_def + [[SD % 'message_compare', 'value', 'compare', [1, 2, 3, 4]]], bases=[PRESENT], kvrows=1)}
for _n in 'message_compare get_merge_conflicts merge_event_args revoke_event_args prune_event_args compact_state_add_conflict is_compaction_conflict read_compact_state_details compact_state_type_supported'.split():
    GROUPS['store_rules'][_n + ' here'] = dict(fn=r' as snapchain::storage::store::account::store::StoreDef>::%s$' % _n, many=True, kvrows=1)

CMP = [[r'storage::util::bytes_compare$', 'i8', 'compare', [0, 1]]]
TYP = [[SD % n, 'u8', n, []] for n in ('add_message_type', 'remove_message_type', 'compact_state_message_type')]
SR = GROUPS['store_rules']
_two = [{'len(a_ts_hash)': 24, 'len(b_ts_hash)': 24}]
SR['message_compare'].update(oracles=CMP + TYP, bases=_two)
SR['message_compare here'].update(oracles=CMP, bases=_two)
for _n in ('remove_type_supported', 'compact_state_type_supported'):
    SR[_n]['oracles'] = TYP
SR['get_merge_conflicts']['oracles'] = [o for o in _def if 'message_type' not in o[0]] + TYP + [[SD % 'message_compare', 'i8', 'order', [1, 2, 3, 4]]]
SR['get_merge_conflicts here'].update(oracles=CMP + [['message::get_message$', 'value', 'message_at', [2, 3, 4]], [SD % 'message_compare', 'i8', 'order', [1, 2, 3, 4]]], bases=[{**PRESENT, 'discr(message.data.Some.body)': 1, 'discr(message.data.Some.body.Some)': 7, 'len(ts_hash)': 24}, {'discr(message.data)': 0}, {**PRESENT, 'discr(message.data.Some.body)': 0}, {**PRESENT, 'discr(message.data.Some.body)': 1, 'discr(message.data.Some.body.Some)': ((0, 6), (8, 16))}])
del GROUPS['store_rules']['compact_state_type_supported here']
EN = r'engine::ShardEngine::%s$'
QUIET = [[r'(metrics|Metrics)::(count|time\w*|gauge\w*|publish\w*|make_count_fn)$', 'unit'], [r'(Shard|Block)?EngineMetrics::\w+$|engine_metrics::.*Metrics::\w+$', 'unit']]
EO = QUIET + [['OnchainEventStore::merge_onchain_event$', 'effect', 'merge_onchain', [1]], [EN % 'update_trie', 'effect', 'trie', [2]], ['verification::validate_fname_transfer$', 'value', 'fname_ok', [0, 1, 2]], ['UserDataStore::merge_username_proof$', 'effect', 'merge_fname', [1]],
  [EN % 'get_user_data_by_fid_and_type', 'value', 'user_data', [1, 2]], [STG('revoke'), 'effect', 'revoke', [1]], ['BlockEventStore::put_block_event$', 'effect', 'put_block_event', [1]], [EN % 'handle_block_event', 'effect', 'handle_block_event', [2, 4]],
  ['Stores::revoke_messages$', 'effect', 'revoke_signer', [1, 2]], [EN % 'validate_user_message', 'value', 'valid', [1, 2, 3]], [EN % 'merge_message', 'effect', 'merge', [1, 3]], [EN % 'prune_messages', 'effect', 'prune', [1, 2, 4]], [EN % 'handle_delete_side_effects', 'effect', 'side_effects', [1, 2]],
  ['MerkleTrie::get_hash$', 'value', 'account_root', [3]], ['HubEvent::from_validation_error$', 'value', 'failure', [0, 1]], ['StoreEventHandler::commit_transaction$', 'effect', 'emit', [2]], [EN % 'should_revoke_signer', 'bool', 'revokes_signer', [0, 1]], [EN % 'replayed_verification_prune_type', 'value', 'replay_prune', [0]],
  ['MerkleTrie::root_hash$', 'value', 'root', []], ['BlockEventStore::max_seqnum$', 'value', 'max_seqnum', []], [EN % 'replay_snapchain_txn', 'effect', 'replay', [2, 4, 5, 6, 7]], [EN % 'get_last_shard_chunk', 'value', 'last_chunk', []], [EN % 'replay_proposal', 'effect', 'replay_proposal', [3, 4, 5, 6, 7]], [EN % 'prepare_proposal', 'effect', 'prepare', [3, 4, 5]], ['MerkleTrie::reload$', 'effect', 'reload_trie', []], [EN % 'compute_block_events_hash', 'value', 'block_events_hash', [0]],
  ['EngineVersion::version_for$', 'value', 'version', [0, 1]], ['Instant::elapsed$', 'value', 'elapsed', []]]
T_ = 'snapchain_txn.'
_none = {'len(%ssystem_messages)' % T_: 0, 'len(%suser_messages)' % T_: 0}
_sys = lambda a, b, c: {'len(%ssystem_messages)' % T_: 1, 'len(%suser_messages)' % T_: 0, **{'discr(%ssystem_messages[0].%s)' % (T_, f): v for f, v in (('on_chain_event', a), ('fname_transfer', b), ('block_event', c))}}
GROUPS['replay_txn'] = {'empty': dict(fn=EN % 'replay_snapchain_txn', oracles=EO, bases=[_none]), 'onchain': dict(fn=EN % 'replay_snapchain_txn', oracles=EO, bases=[_sys(1, 0, 0)]), 'fname': dict(fn=EN % 'replay_snapchain_txn', oracles=EO, bases=[_sys(0, 1, 0)]), 'block event': dict(fn=EN % 'replay_snapchain_txn', oracles=EO, bases=[_sys(0, 0, 1)]),
  'user': dict(fn=EN % 'replay_snapchain_txn', oracles=EO, bases=[{'len(%ssystem_messages)' % T_: 0, 'len(%suser_messages)' % T_: 1}])}
_one = [[r'^len\((side_effects|merge|prune|revoke_signer)\(.*\)\.Ok\)$', 1]]
for _d in GROUPS['replay_txn'].values():
    _d['pats'] = _one
_fine = [[r'^discr\((valid|merge|trie|prune|side_effects|account_root|revoke_signer|merge_onchain|handle_block_event)\(.*\)\)$', 0], [r'^len\((side_effects|prune|revoke_signer)\(.*\)\.Ok\)$', 0], [r'^len\(merge\(.*\)\.Ok\)$', 1]]
_um = lambda i: T_ + 'user_messages[%d]' % i
_p2 = {'len(%ssystem_messages)' % T_: 0, 'len(%suser_messages)' % T_: 2, 'discr(%s.data)' % _um(0): 1, 'discr(%s.data)' % _um(1): 1}
GROUPS['replay_txn']['user order'] = dict(fn=EN % 'replay_snapchain_txn', oracles=EO, pats=_fine, bases=[{**_p2, 'discr(%s)' % ('msg_type(%s)' % _um(0)): 1}])
GROUPS['replay_txn']['user order']['bases'] = [_p2]
_s2 = {'len(%ssystem_messages)' % T_: 2, 'len(%suser_messages)' % T_: 0, **{'discr(%ssystem_messages[%d].%s)' % (T_, i, f): 0 for i in (0, 1) for f in ('fname_transfer', 'block_event')}, **{'discr(%ssystem_messages[%d].on_chain_event)' % (T_, i): 1 for i in (0, 1)}}
GROUPS['replay_txn']['system order'] = dict(fn=EN % 'replay_snapchain_txn', oracles=EO + [['OnChainEvent.*::r?#?type$', 'u8', 'kind', [0]]], pats=_fine + [[r'^revokes_signer\(', 0], [r'^kind\(', 1]], bases=[_s2])
_okrest = [[r'^discr\((trie|side_effects|account_root)\(.*\)\)$', 0]]
for _n, _x in (('onchain', 'revoke_signer|trie'), ('fname', 'trie'), ('block event', ''), ('user', '')):
    GROUPS['replay_txn'][_n]['pats'] = _one + _okrest
GROUPS['replay_txn']['user']['bases'][0].update({'discr(%s.data)' % _um(0): 1})
_d_ = lambda i: _um(i) + '.data.Some'
def _kind(i, k):
    if isinstance(k, int):
        return {_d_(i) + '.type': k}
    return {_d_(i) + '.type': 11, 'discr(%s.body)' % _d_(i): 1, 'discr(%s.body.Some)' % _d_(i): 5, '%s.body.Some.UserDataBody.type' % _d_(i): k[0]}
_ks = [7, 12, (6,), (1,), 1]
GROUPS['replay_txn']['user order']['bases'] = [{**_p2, **_kind(0, a), **_kind(1, b)} for a in _ks for b in _ks] + [{**_p2, **_kind(0, a), **_kind(1, 2)} for a in ((7,), (8,), (11,), (12,), 15, 5, 3, 8, 14)]
for _i in (0, 1):
    _s2.update({T_ + 'system_messages[%d].on_chain_event.Some.type' % _i: 3})
for _i in (0, 1):
    _s2.pop(T_ + 'system_messages[%d].on_chain_event.Some.type' % _i)
    _s2.update({T_ + 'system_messages[%d].on_chain_event.Some.type' % _i: 3, 'discr(%ssystem_messages[%d].on_chain_event.Some.body)' % (T_, _i): 0, 'discr(version)': 19})
GROUPS['replay_txn']['system order']['oracles'] = EO
GROUPS['engine'] = {n: dict(fn=EN % n, oracles=EO) for n in 'prepare_proposal replay_proposal propose_state_change validate_state_change replay_replicator_message start_round replayed_message_type replayed_verification_prune_type handle_delete_side_effects check_and_revoke_primary_address merge_message merge_replayed_verification prune_messages update_trie compute_block_events_hash is_cached_txn_valid get_username_proof validate_username should_revoke_signer verify_fid_owns_address get_user_data_by_fid_and_type get_fname_proof get_shard_chunk_by_height get_last_shard_chunk get_confirmed_height get_min_height simulate_message simulate_bulk_messages handle_block_event commit_shard_chunk commit_and_emit_events trie_key_exists get_block_event'.split()}
G = GROUPS['engine']
for _n in ('get_username_proof', 'validate_username', 'simulate_bulk_messages'):
    G.pop(_n)
NOW = [['FarcasterTime::current$', 'value', 'now', []]]
MORE = NOW + [['TrieKey::for_hub_event$', 'value', 'trie_keys', [0]], ['MerkleTrie::update_for_event$', 'effect', 'update_for_event', [3]], ['MerkleTrie::exists$', 'value', 'in_trie', [3]], ['UserDataStore::get_user_data_by_fid_and_type$', 'value', 'user_data', [1, 2]],
  [STG('merge'), 'effect', 'store_merge', [0, 1, 3]], [STG('merge_force_override'), 'effect', 'force_merge', [0, 1, 3]], [STG('prune_messages'), 'effect', 'store_prune', [0, 1, 2, 3]], ['StorageLendStore::merge$', 'effect', 'lend_merge', [0, 1, 3]],
  ['account::.*merge_key_add$', 'effect', 'key_add', [1, 2, 4]], ['account::.*merge_key_remove$', 'effect', 'key_remove', [1, 2]], [r'Channel(Update|Member|Pin|Moderate)Store::merge$', 'effect', 'channel_merge', [0, 1, 3]], ['Stores::get_usage$', 'value', 'usage', [1, 2]],
  ['MempoolPoller::create_transactions_from_mempool$', 'value', 'transactions_of', [0]], ['Stores::get_storage_slot_for_fid$', 'value', 'slot', [1, 2, 3, 4]], ['ShardStore::get_last_shard_chunk$', 'value', 'stored_last', []], ['ShardStore::max_block_number$', 'value', 'max_block', []], ['ShardStore::min_block_number$', 'value', 'min_block', []],
  ['ShardStore::put_shard_chunk$', 'effect', 'put_chunk', [1]], ['RocksDB::commit$', 'effect', 'commit_db', [1]], [EN % 'emit_commit_metrics', 'unit'], [EN % 'compute_event_counts_by_type', 'value', 'event_counts', [0]], [EN % 'emit_channel_owner_hints_for_verification', 'value', 'hints', [1, 3]], ['fold_channel_register_replica$', 'effect', 'fold_register', [2]],
  [EN % 'post_commit', 'effect', 'post_commit', [1]], ['broadcast::Sender::(<.*>::)?send$', 'effect', 'send', [1]], ['VerificationStore::get_verification_add$', 'value', 'verification', [1, 2]], [EN % 'merge_replayed_verification', 'effect', 'merge_forced', [1]],
  [EN % 'check_and_revoke_primary_address', 'effect', 'revoke_primary', [1, 2]], [EN % 'prepare_proposal', 'effect', 'prepare', [3, 4, 5]], [EN % 'is_cached_txn_valid', 'bool', 'cache_valid', [1, 2, 3]], [EN % 'commit_and_emit_events', 'effect', 'commit_and_emit', [1, 2, 3, 4]],
  ['StoreEventHandler::set_current_height$', 'effect', 'set_height', [1]], [EN % 'compute_block_events_hash', 'value', 'events_hash', [0]]]
for _n, _d in G.items():
    _d['oracles'] = [o for o in MORE + EO if not (re.search(o[0].rstrip('$') + '$', 'engine::ShardEngine::' + _n) and 'ShardEngine' in o[0])]
G['get_last_shard_chunk']['oracles'] = [o for o in G['get_last_shard_chunk']['oracles'] if o[2:3] != ['last_chunk']] + [['ShardStore::get_last_shard_chunk$', 'value', 'stored_last', []]]
_t = 'transactions_of(messages).Ok'
G['prepare_proposal'].update(bases=lens(_t, 0, **{'discr(transactions_of(messages))': 0}) + [{'discr(transactions_of(messages))': 1}] + [{'discr(transactions_of(messages))': 0, 'len(%s)' % _t: 1, 'len(%s[0].system_messages)' % _t: a, 'len(%s[0].user_messages)' % _t: b} for a in (0, 1, 2) for b in (0, 1)] +
    [{'discr(transactions_of(messages))': 0, 'len(%s)' % _t: 2, **{'len(%s[%d].%s)' % (_t, i, f): 1 for i in (0, 1) for f in ('system_messages', 'user_messages')}}])
G['replay_proposal']['bases'] = lens('transactions', 0, 1, 2)
_e = lambda i: 'events[%d].body.Some.MergeMessageBody.deleted_messages' % i
G['handle_delete_side_effects'].update(bases=[{'len(events)': 0}] + lens(_e(0), 0, 1, 2, **{'len(events)': 1}) + [{'len(events)': 2, 'len(%s)' % _e(0): 1, 'len(%s)' % _e(1): 1}], pats=[[r'^len\(revoke_primary\(.*\)\.Ok\)$', 1]])
_y = lambda i: 'len(transactions[%d].system_messages)' % i
G['compute_block_events_hash']['bases'] = [{'len(transactions)': 0}] + [{'len(transactions)': 1, _y(0): n} for n in (0, 1, 2)] + [{'len(transactions)': 2, _y(0): 1, _y(1): 1}]
G['handle_block_event']['pats'] = [[r'^len\((merge|merge_forced)\(.*\)\.Ok\)$', 1], [r'^len\(hints\(.*\)\)$', 1]]
G['commit_and_emit_events'].update(bases=lens('events', 0, 1, 2, **{'discr(shard_chunk.header)': 1, 'discr(shard_chunk.header.Some.height)': 1}))
G['commit_and_emit_events']['pats'] = [[r'^discr\((commit_db|reload_trie|emit)\(.*\)\)$', 0]]
G['prepare_proposal']['oracles'] = G['prepare_proposal']['oracles'] + [ACTIVE]
for _n in ('commit_and_emit_events',):
    G[_n]['before'] = [['commit_db', 'send'], ['emit', 'commit_db'], ['commit_db', 'reload_trie'], ['commit_db', 'post_commit']]
G['prepare_proposal']['pats'] = [[r'^len\(replay\(.*\)\.Ok\.[12]\)$', 1]]
_v = 'discr(version(timestamp, self.network))'
_oc = lambda i, j=0: 'discr(%s[%d].system_messages[%d].on_chain_event)' % (_t, i, j)
_tx1 = lambda a, b: {'discr(transactions_of(messages))': 0, 'len(%s)' % _t: 1, 'len(%s[0].system_messages)' % _t: a, 'len(%s[0].user_messages)' % _t: b}
G['prepare_proposal']['bases'] = [{**_tx1(a, b), _v: v, **{_oc(0, j): e for j in range(a)}} for v in (((0, 6),), ((7, 21),)) for e in (0, 1) for a in (0, 1, 2) for b in (0, 1) if a or e == 0] + [
    {'discr(transactions_of(messages))': 1}, {'discr(transactions_of(messages))': 0, 'len(%s)' % _t: 0}] + [
    {'discr(transactions_of(messages))': 0, _v: 21, 'len(%s)' % _t: 2, **{'len(%s[%d].%s)' % (_t, i, f): 1 for i in (0, 1) for f in ('system_messages', 'user_messages')}, **{_oc(i): 1 for i in (0, 1)}}]
G['prepare_proposal']['pats'] += [[r'^discr\(replay', 0]]
KV1 = dict(kvrows=1)
SI = 'build_secondary_indices delete_secondary_indices build_follow_index delete_follow_index make_add_key make_remove_key make_compact_state_add_key make_compact_state_prefix get_prune_size_limit'
GROUPS['store_index'] = {n: dict(fn=r' as snapchain::storage::store::account::store::StoreDef>::%s$' % n, many=True, kvrows=1) for n in SI.split()}
GROUPS['slot_stores'] = {n: dict(fn=r' as snapchain::storage::store::account::channel_store::ChannelSlotStoreDef>::%s$' % n, many=True, kvrows=1) for n in 'channel_id slot_cap validate_slot_message slot_key slot_count_key is_live_moderator build_gated_secondary_indices update_slot_suffix postfix message_type'.split()}
CS = fns('channel_store', 'message_for_slot_pointer merge_slot read_slot read_channel_counter merge member_state member members_by_channel memberships_by_fid slot_count live_moderator_count get_channel_pin get_channel_pin_state get_channel_update channel_update moderation_state', **KV1)
GROUPS['slot_stores'].update(CS)
GROUPS['gasless'] = {**fns('key_add_store', 'get_gasless_key_record put_gasless_key_record delete_gasless_key_record get_gasless_key_owner_fid put_gasless_key_owner delete_gasless_key_owner get_gasless_key_count increment_gasless_key_count decrement_gasless_key_count list_gasless_keys_by_fid', **KV1),
  **fns('key_last_used_at_store', 'get_last_used_at init_last_used_at delete_last_used_at check_and_bump_last_used_at', **KV1), **fns('key_nonce_store', 'get_nonce get_user_nonce get_app_nonce check_and_set_nonce check_and_set_user_nonce check_and_set_app_nonce', **KV1),
  **fns('active_key', 'get_active_key', **KV1), **fns('gasless_key_merge', 'merge_key_add merge_key_remove', **KV1)}
GROUPS['onchain_store'] = fns('onchain_event_store', 'merge_onchain_event move_channel_owner_address_index read_channel_owner_by_channel_key build_secondary_indices_for_channel_register fold_channel_register_replica build_secondary_indices_for_id_register build_secondary_indices_for_signer build_secondary_indices put_channel_key_by_owner_address delete_channel_key_by_owner_address get_channel_keys_by_owner_address get_channel_keys_for_owner_addresses get_event_by_secondary_key get_onchain_events get_onchain_events_with_filter get_all_onchain_events get_signers get_fids get_id_register_event_by_fid get_channel_owner get_channel_key_by_label get_active_signer tier_subscription_exires_at is_tier_subscription_active_at get_storage_slot_for_fid exists', **KV1)
GROUPS['account_reads'] = {**fns('link_store', 'get_link_add get_link_adds_by_fid get_link_compact_state_message_by_fid get_links_by_target get_link_remove get_link_removes_by_fid', **KV1), **fns('name_registry_events', 'get_fname_proof_by_fid', **KV1),
  **fns('reaction_store', 'followers_by_channel follows_by_fid follow_page follower_count is_following get_reaction_add get_reaction_remove get_reaction_adds_by_fid get_reaction_removes_by_fid get_reactions_by_target', **KV1),
  **fns('cast_store', 'get_cast_add get_cast_remove get_cast_adds_by_fid get_cast_removes_by_fid get_casts_by_parent get_casts_by_mention', **KV1),
  **fns('storage_lend_store', 'get_lent_storage get_borrowed_storage get_messages_by_borrower_fid merge', **KV1), **fns('user_data_store', 'get_user_data_add get_user_data_adds_by_fid get_user_data_by_fid_and_type get_username_proof_by_fid merge_username_proof', **KV1),
  **fns('username_proof_store', 'get_username_proof get_username_proofs_by_fid get_username_proof_by_fid_and_name', **KV1), **fns('verification_store', 'get_verification_add get_verification_remove get_verification_remove_with_txn get_verifications_by_address get_verification_adds_by_fid get_verification_removes_by_fid', **KV1),
  **fns('account::store::Store', 'get_adds_by_fid get_removes_by_fid get_all_messages_by_fid get_compact_state_messages_by_fid', **KV1)}
GROUPS['chunks'] = {**fns('store::block', 'get_block_page_by_prefix get_first_or_last_block get_current_header get_blocks_in_range put_block get_first_block get_last_block get_block_by_height min_block_number max_block_number max_block_timestamp get_blocks get_next_height_by_timestamp prune_until', **KV1),
  **fns('store::shard', 'get_shard_page_by_prefix get_first_or_last_shard_chunk get_current_header put_shard_chunk get_shard_chunks_in_range get_first_shard_chunk get_last_shard_chunk min_block_number max_block_number max_block_timestamp get_shard_chunks get_next_height_by_timestamp prune_until', **KV1),
  **fns('block_event_store', 'get_block_page_by_prefix get_last_block_event put_block_event max_seqnum get_block_event_by_seqnum', **KV1), **fns('account::event', 'commit_transaction put_event_transaction get_events get_event prune_events_util set_current_height', **KV1)}
GROUPS['stores'] = fns('stores::Stores', 'make_schema_version_key get_schema_version set_schema_version get_storage_slot_for_fid get_usage get_usage_by_store_type is_pro_user get_storage_limits revoke_messages get_events get_event get_next_height_by_timestamp prune_events_until prune_shard_chunks_until', **KV1)
GROUPS['trie_ops'] = {**fns('merkle_trie::MerkleTrie', 'update_for_event initialize load_root reload insert delete exists items get_node_from_txn_or_db get_node get_hash get_count root_hash get_all_values get_trie_node_metadata', **KV1), **fns('trie_node::TrieNode', 'children get_node_from_trie insert delete exists split_leaf_node get_or_load_child get_all_values deserialize', **KV1)}
GROUPS['block_engine'] = fns('block_engine', 'get_block_by_event_seqnum resolve_channel_owner_fid get_storage_slot_for_fid trie_key_exists set_height verification_message_counts verification_logical_key_type merge_channel_message merge_message apply_verification_count_delta merge_failure_event on_merge_message replay_snapchain_txn heartbeat_block_interval build_block_event generate_block_events storage_slot_for_transaction prepare_proposal propose_state_change replay_proposal validate_state_change commit_block get_last_block get_block_by_height get_confirmed_height get_min_height get_last_shard_witness simulate_message', **KV1)
GROUPS['consensus_types'] = {**fns('core::types', 'sign_vote verify_signed_vote sign_proposal verify_signed_proposal sign_proposal_part verify_signed_proposal_part sign_vote_extension verify_signed_vote_extension verify_commit_signature decode_signature encode_signature new_prevote new_precommit to_proto from_proto to_sign_bytes select_proposer new_proposal is_first is_last height round value take_value pol_round validator_address vote_type extension take_extension extend count total_voting_power get_by_address get_by_index address voting_power to_commit_certificate from_commit_certificate'),
  **{'encode': dict(fn=r'SnapchainCodec.*::encode$', many=True)}}
GROUPS['validators'] = {**fns('consensus::validator', 'get_validator_set validator_count get_address get_current_height get_min_height start start_round next_height_delay decide get_decided_value add_proposed_value propose_value get_proposed_value'), **fns('consensus::proposer', 'start_round propose_value add_proposed_value get_proposed_value decide get_decided_value get_confirmed_height get_min_height get_shard_witness_at_height collect_confirmed_shard_witnesses publish_new_block publish_new_shard_chunk'),
  **fns('read_validator', 'initialize_height get_min_height commit_decided_value process_buffered_blocks get_decided_value_height verify_signatures validate_protocol_version process_decided_value get_decided_value')}
for _g in ('slot_stores',):
    for _n in ('update_slot_suffix', 'postfix', 'message_type', 'channel_update'):
        GROUPS[_g].pop(_n, None)
_mb = 'message.data.Some.body.Some'
for _n in ('build_secondary_indices', 'delete_secondary_indices'):
    pass
GAS = [['compute_scopes_mask$', 'value', 'mask', [0]], ['extract_scope_and_ttl$', 'value', 'scope_ttl', [0, 1]]]
GROUPS['gasless']['get_active_key']['oracles'] = GAS
ONR = [['onchain_event_store::.*get_onchain_events$', 'value', 'onchain_events', [1, 2, 3]], ['OnchainEventStore::get_onchain_events$', 'value', 'onchain_events', [1, 2]]]
GROUPS['onchain_store']['tier_subscription_exires_at']['oracles'] = ONR
GROUPS['onchain_store']['tier_subscription_exires_at'].update(pats=[[r'^len\(onchain_events\(.*\)\.Ok\)$', 1]])
GROUPS['onchain_store']['get_storage_slot_for_fid']['oracles'] = ONR + [['StorageSlot::(merge|from_event)$', 'value', 'slot', [0, 1]]]
GROUPS['onchain_store']['is_tier_subscription_active_at']['oracles'] = [['tier_subscription_exires_at$', 'value', 'expires', [1, 2]]]
SLD = r'ChannelSlotStoreDef::%s$'
SLOT = [[SLD % n, 'value', n, [1]] for n in ('channel_id', 'validate_slot_message', 'slot_key', 'is_live_moderator')] + [[SLD % 'slot_count_key', 'value', 'slot_count_key', [1]], [SLD % 'slot_cap', 'value', 'slot_cap', []], [SD % 'is_add_type', 'bool', 'is_add_type', [1]], [SLD % 'build_gated_secondary_indices', 'effect', 'gated_index', [2, 3]],
  ['channel_store::load_slot_message$', 'value', 'incumbent', [2]], ['channel_store::read_counter$', 'value', 'counter', [2]], ['channel_store::encode_slot_pointer$', 'value', 'pointer', [0, 1]], ['message::make_ts_hash$', 'value', 'ts_hash', [0, 1]], [STG('delete_many_transaction'), 'effect', 'drop', [2]], [STG('merge_add_with_conflicts'), 'effect', 'merge_add_over', [1, 2, 4, 5]]]
GROUPS['slot_stores']['merge_slot']['oracles'] = SLOT
GROUPS['slot_stores']['merge']['oracles'] = [['channel_store::merge_slot$', 'effect', 'merge_slot', [1, 3]]]
GROUPS['account_reads']['merge'].update(oracles=[[STG('merge'), 'effect', 'merge', [1, 3]], [STG('prune_message'), 'effect', 'prune', [1]]])
# paged readers end in one of the store's page walks, decided on their own
PG = [[STG('get_(adds|removes|all_messages|compact_state_messages)_by_fid'), 'value', 'page', [1, 2, 3, 4]], ['message::get_messages_page_by_prefix$', 'value', 'page_by_prefix', [1, 2, 3]], ['message::get_many_messages$', 'value', 'many', [1]], [STG('get_add'), 'value', 'get_add', [1, 2]], [STG('get_remove'), 'value', 'get_remove', [1, 2]]]
SUCC = [['increment_vec_u8$', 'value', 'succ', [0]]]
for _g in ('account_reads', 'slot_stores', 'onchain_store', 'chunks', 'gasless', 'stores'):
    for _n, _d in GROUPS[_g].items():
        _d['oracles'] = list(_d.get('oracles', [])) + SUCC
_inc, _lm = 'incumbent(slot_key(message).Ok).Ok', 'is_live_moderator(%s).Ok'
_mods = lambda x: [{'discr(%s)' % (_lm % x): 0}] + [{'discr(%s)' % (_lm % x): 1, _lm % x + '.Some': b} for b in (0, 1)]
_cap = [{'discr(slot_cap())': 0}, {'discr(slot_cap())': 1, 'discr(slot_count_key(channel_id(message).Ok))': 0}, {'discr(slot_cap())': 1, 'discr(slot_count_key(channel_id(message).Ok))': 1}]
_neg, _pos, _big = ((-2**64, -1),), ((1, 2**64),), 2**64 - 1
_f = _inc + '.Some.data.Some.fid - message.data.Some.fid'
GROUPS['slot_stores']['merge_slot']['bases'] = [{'discr(%s)' % _inc: 0, **m, **c} for m in _mods('message') for c in _cap] + \
  [{'discr(%s)' % _inc: 1, 'discr(%s.Some.data)' % _inc: 1, 'discr(message.data)': 1, **a, **b} for a in _mods('message') for b in _mods(_inc + '.Some')]
# the proposers: what they ask the engine is decided by the engine tables
EG = lambda k, n, kind, a, l=None: [r'%sEngine::%s$' % (k, n), kind, l or n, a]
def ENGS(k):
    return [EG(k, 'get_confirmed_height', 'value', [], 'confirmed_height'), EG(k, 'version_for', 'value', [1]), EG(k, 'validate_state_change', 'bool', [1, 2], 'replays'), EG(k, '(commit_shard_chunk|commit_block)', 'effect', [1], 'commit'), EG(k, '(get_last_shard_chunk|get_last_block)', 'value', [], 'last_block'),
      EG(k, 'get_min_height', 'value', [], 'min_height'), EG(k, '(get_shard_chunk_by_height|get_block_by_height)', 'value', [1], 'block_at'), EG(k, 'propose_state_change', 'effect', [1, 2, 3], 'propose'), EG(k, 'start_round', 'effect', [1, 2]), EG(k, 'get_last_shard_witness', 'value', [1, 2], 'last_witness')]
PROP = ENGS('Shard') + ENGS('Block') + [['MempoolPoller::pull_messages$', 'value', 'pulled', [1]], ['EngineVersion::version_for$', 'value', 'version_for', [0, 1]], ['EngineVersion::protocol_version$', 'u32', 'protocol_version', [0]], ['FarcasterTime::current$', 'value', 'now', []],
  ['get_chunk_by_height$', 'value', 'chunk_at', [1]], ['blake3::hash$', 'value', 'blake3', [0]], ['ProposedValues::decide$', 'effect', 'forget', [1]], ['ProposedValues::add_proposed_value$', 'effect', 'remember', [1]], ['ProposedValues::get_by_shard_hash$', 'value', 'proposed', [1]], ['publish_new_(block|shard_chunk)$', 'effect', 'publish', [1]],
  ['collect_confirmed_shard_witnesses$', 'value', 'witnesses', [1, 2, 3]], ['LocalStateStore::get_proposal$', 'value', 'saved_proposal', [1, 2, 3]], ['LocalStateStore::put_proposal$', 'effect', 'save_proposal', [1]], ['LocalStateStore::delete_proposals$', 'effect', 'delete_proposals', [1, 2]], ['ProposedValues::count$', 'u64', 'pending', []],
  ['core::util::verify_signatures$', 'bool', 'verified', [0, 1]], ['FarcasterTime::new$', 'value', 'time', [0]], ['FarcasterTime::to_u64$', 'u64', 'unix', [0]]]
PRN = [r'consensus::proposer::ShardProposer', r'consensus::proposer::BlockProposer']
GROUPS['proposer'] = {}
for _t, _p in (('shard', 'Shard'), ('block', 'Block')):
    for _n in 'propose_value add_proposed_value decide get_decided_value get_confirmed_height get_min_height get_proposed_value'.split():
        GROUPS['proposer']['%s %s' % (_t, _n)] = dict(fn=r'<.*proposer::%sProposer as .*Proposer>::%s$' % (_p, _n), oracles=PROP)
GROUPS['proposer'].update({'start_round': dict(fn=r'ShardProposer::start_round$', oracles=PROP), 'get_shard_witness_at_height': dict(fn='BlockProposer::get_shard_witness_at_height$', oracles=PROP), 'collect': dict(fn='BlockProposer::collect_confirmed_shard_witnesses$', oracles=[o for o in PROP if o[2] != 'witnesses'])})
PV = [[r'Proposer>?::%s$' % n, k, n, a] for n, k, a in (('propose_value', 'effect', [1, 2, 3]), ('add_proposed_value', 'effect', [1]), ('decide', 'effect', [1]), ('get_decided_value', 'value', [1]), ('get_confirmed_height', 'value', []), ('get_min_height', 'value', []), ('get_proposed_value', 'value', [1]), ('start_round', 'effect', [1, 2]))]
GROUPS['validator'] = {n: dict(fn=r'validator::ShardValidator::%s$' % n, oracles=PV + PROP) for n in 'get_validator_set validator_count get_address get_current_height get_min_height start start_round next_height_delay decide get_decided_value add_proposed_value propose_value get_proposed_value'.split()}
RV = [[r'read_validator::Engine::%s$' % n, 'effect', n, [1]] for n in ()] + [['ReadValidator::%s$' % n, k, n, a] for n, k, a in (('commit_decided_value', 'effect', [1, 2]), ('process_buffered_blocks', 'u64', []), ('get_decided_value_height', 'value', [0]), ('verify_signatures', 'bool', [1]), ('validate_protocol_version', 'bool', [1]))]
GROUPS['read_validator'] = {n: dict(fn=r'ReadValidator::%s$' % n, oracles=[o for o in RV if o[2] != n] + PROP) for n in 'initialize_height get_min_height commit_decided_value process_buffered_blocks get_decided_value_height verify_signatures validate_protocol_version process_decided_value get_decided_value'.split()}

GROUPS['proposer']['block decide']['bases'] = lens('proposed(commits.value.Some).Some.proposed_value.Some.Block.shard_witness.Some.shard_chunk_witnesses', 0, 1)
GROUPS['validator']['get_validator_set']['bases'] = GROUPS['validator']['validator_count']['bases'] = [{'len(self.validator_sets.sets)': n, **{'len(self.validator_sets.sets[%d].shard_ids)' % i: 1 for i in range(n)}} for n in (1, 2)]
GROUPS['read_validator']['validate_protocol_version']['pats'] = [[r'^discr\(Sender::try_send\(.*\)\)$', 0]]
GROUPS['read_validator']['validate_protocol_version']['oracles'] = GROUPS['read_validator']['validate_protocol_version']['oracles'] + [['Sender::<.*>::try_send$', 'effect', 'send', [1]]]
GROUPS['read_validator']['process_decided_value']['pats'] = [[r'^await process_buffered_blocks\(\)$', ((0, 2**32),)]]
GROUPS['read_validator']['process_decided_value']['oracles'] = GROUPS['read_validator']['process_decided_value']['oracles'] + [['BTreeMap::<.*>::insert$', 'effect', 'buffer', [1, 2]]]
GROUPS['read_validator']['validate_protocol_version']['pats'] = [[r'^discr\(send\(.*\)\)$', 0]]
_rv = GROUPS['read_validator']['process_decided_value']
_h = 'get_decided_value_height(value)'
_d = '%s.block_number - self.last_height.block_number' % _h
_s = '%s.shard_index - self.last_height.shard_index' % _h
_rv['bases'] = [{_s: s, **x} for s in (((-2**32, -1),), 0, ((1, 2**32),)) for x in ({_d: ((-2**64, 0),)}, {_d: 1}, {_d: ((2, 2**64),)})]
_lh = lambda n: 'Height{shard_index: self.last_height.shard_index, block_number: self.last_height.block_number%s}' % n
_c = 'cmp(%s,%s)' % (_h, _lh(' + 1'))
_rv['bases'] = [{_c: 1}, {_c: ((-1, -1),)}, {_c: 0}]
_rv['oracles'] = [['(::increment|increment)$', 'value', 'next', [0]]] + _rv['oracles']
_rv.pop('bases')
_pc = GROUPS['proposer']['collect']
_pc['oracles'] = _pc['oracles'] + [['EngineVersion::is_enabled$', 'bool', 'enabled', [1]], ['BlockProposer::get_shard_witness_at_height$', 'value', 'witness_at', [1, 2]]]
_pc['bases'] = [{'len(self.shard_stores)': n, 'self.num_shards': m, 'enabled(DecoupleShardZeroBlockProduction)': 1} for n, m in ((0, 0), (1, 1), (1, 2))]

CERT = [['to_commit_certificate$', 'value', 'certificate', [0]], ['get_validator_set$', 'value', 'set_at', [1]], ['ThresholdParam::is_met$', 'bool', 'is_met', [0, 1, 2]], ['Vote::new_precommit$', 'value', 'precommit', [0, 1, 2, 3]], ['to_sign_bytes$', 'value', 'bytes_of', [0]], ['ed25519::PublicKey::verify$', 'bool', 'signed', [0, 1, 2]], ['PublicKey::try_from_bytes$', 'value', 'key', [0]], ['ed25519::PublicKey::to_bytes$', 'value', 'raw', [0]]]
GROUPS['read_validator']['commit quorum'] = dict(fn=r'core::util::verify_signatures$', oracles=CERT, bases=[{'len(certificate(commits).aggregated_signature.signatures)': n, 'len(set_at(certificate(commits).height.block_number).validators)': m} for n, m in ((0, 1), (1, 1), (1, 2), (2, 2))], pats=[[r'^discr\(key\(.*\)\)$', 0]])
_e = lambda i, j: 'eq(certificate(commits).aggregated_signature.signatures[%d].address.0,raw(set_at(certificate(commits).height.block_number).validators[%d].public_key))' % (i, j)
_q = GROUPS['read_validator']['commit quorum']
_q['bases'] = _q['bases'][:3] + [{**_q['bases'][3], _e(0, 0): a, _e(0, 1): b, _e(1, 0): c, _e(1, 1): d} for a, b in ((1, 0), (0, 1), (0, 0)) for c, d in ((1, 0), (0, 1), (0, 0))]
_q['bases'] = [b for b in _q['bases'] if not (b.get(_e(0, 1)) and b.get(_e(1, 0)))]
GROUPS.pop('validators')
ONS = [['OnchainEventStore::get_storage_slot_for_fid$', 'value', 'rented', [1, 2, 3]], ['StorageLendStore::get_(lent|borrowed)_storage$', 'value', 'lent_or_borrowed', [1]], ['OnchainEventStore::is_tier_subscription_active_at$', 'value', 'tier_active', [1, 2, 3]], ['MerkleTrie::get_count$', 'value', 'trie_count', [2]], ['RocksDB::delete_paginated$', 'effect', 'delete_pages', [1, 2]], ['(BlockStore|ShardStore)::prune_until$', 'effect', 'prune_until', [1, 2]], ['HubEvent::prune_events_util$', 'effect', 'prune_events', [1, 2]]]
for _n in 'get_usage get_usage_by_store_type is_pro_user get_storage_slot_for_fid get_storage_limits prune_events_until prune_shard_chunks_until'.split():
    GROUPS['stores'][_n]['oracles'] = ONS + GROUPS['stores'][_n]['oracles']
for _n in 'prune_events_until prune_shard_chunks_until'.split():
    GROUPS['stores'][_n]['oracles'] = [['RwLock(::)?<.*>::(read|write)$', 'value', 'lock', [0]]] + GROUPS['stores'][_n]['oracles']
GROUPS['onchain_store']['exists']['oracles'] = ONR
GROUPS['onchain_store']['tier_subscription_exires_at']['bases'] = [{'len(onchain_events(EventTypeTierPurchase, fid).Ok)': 0}, {'len(onchain_events(EventTypeTierPurchase, fid).Ok)': 1, 'onchain_events(EventTypeTierPurchase, fid).Ok[0].body.Some.TierPurchaseEventBody.for_days': ((0, 10**6),), 'onchain_events(EventTypeTierPurchase, fid).Ok[0].block_timestamp': ((0, 10**12),)}]
BSI = [['onchain_event_store::(build_secondary_indices(?:_\\w+)?)$', 'effect', 'index', [1, 2, 3]], ['onchain_event_store::fold_channel_register_replica$', 'effect', 'fold', [1, 2, 3]]]
GROUPS['onchain_store']['merge_onchain_event'] = dict(fn=r'account::onchain_event_store::merge_onchain_event$', oracles=BSI, kvrows=1)
for _n, _d in GROUPS['chunks'].items():
    _d['oracles'] = _d['oracles'] + [o for o in ONS if o[2] == 'delete_pages']
GROUPS['stores']['revoke_messages']['oracles'] = [[STG('revoke_messages_by_signer'), 'effect', 'revoke_all', [0, 1, 2]]]
RDS = [['channel_store::message_for_slot_pointer$', 'value', 'pointed', [2]], ['channel_store::load_slot_message$', 'value', 'incumbent', [2]], ['require_page_token_in_prefix$', 'value', 'token_ok', [0, 1]], ['channel_store::member_state_for_message$', 'value', 'state_of', [0]]]
for _n, _o in (('members_by_channel', RDS), ('memberships_by_fid', RDS), ('member', RDS[1:2]), ('member_state', RDS[1:2]), ('moderation_state', RDS[1:2]), ('get_channel_update', RDS[1:2]), ('get_channel_pin_state', RDS[1:2])):
    GROUPS['slot_stores'][_n]['oracles'] = _o + GROUPS['slot_stores'][_n]['oracles']
GROUPS['onchain_store']['build_secondary_indices'].update(fn='account::onchain_event_store::build_secondary_indices$', oracles=[['onchain_event_store::build_secondary_indices_for_\\w+$', 'effect', 'index', [2, 3]]])
for _n in ('get_links_by_target', 'get_reactions_by_target', 'get_casts_by_parent', 'get_casts_by_mention', 'get_borrowed_storage'):
    GROUPS['account_reads'][_n]['oracles'] = PG[2:3] + GROUPS['account_reads'][_n]['oracles']
GK = [[r'::%s$' % n, k, n, a] for n, k, a in (('get_gasless_key_record', 'value', [2, 3]), ('put_gasless_key_record', 'effect', [2, 3, 4]), ('delete_gasless_key_record', 'effect', [2, 3]), ('get_gasless_key_owner_fid', 'value', [2]), ('put_gasless_key_owner', 'effect', [2, 3]), ('delete_gasless_key_owner', 'effect', [2]), ('get_gasless_key_count', 'u32', [2]), ('increment_gasless_key_count', 'effect', [2]), ('decrement_gasless_key_count', 'effect', [2]),
  ('init_last_used_at', 'effect', [2, 3, 4]), ('delete_last_used_at', 'effect', [2, 3]), ('check_and_set_user_nonce', 'effect', [2, 3]), ('check_and_set_app_nonce', 'effect', [2, 3, 4]), ('get_active_signer', 'value', [1, 2, 3]), ('make_ts_hash', 'value', [0, 1]))]
for _n in ('merge_key_add', 'merge_key_remove'):
    GROUPS['gasless'][_n]['oracles'] = GK + SUCC
GROUPS['gasless']['check_and_bump_last_used_at']['oracles'] = [[r'::get_last_used_at$', 'value', 'last_used', [2, 3]]]
for _n in ('build_secondary_indices', 'delete_secondary_indices'):
    GROUPS['store_index'][_n + ' of cast'] = dict(fn=r'CastStoreDef as .*StoreDef>::%s$' % _n, kvrows=1, bases=[{'discr(message.data)': 1, 'discr(message.data.Some.body)': 1, 'discr(message.data.Some.body.Some)': 0, 'len(message.data.Some.body.Some.CastAddBody.mentions)': n} for n in (0, 1, 2)])
GK2 = [['verify_signed_key_request_metadata$', 'value', 'verified_request', [0, 1, 2, 3]], ['recover_key_(add|remove)_custody_address$', 'value', 'recovered', [0, 1, 2]], ['get_id_register_event_by_fid$', 'value', 'custody_of', [1]]]
GK = [o if o[2] != 'get_active_signer' else ['get_active_signer$', 'value', 'onchain_signer', [1, 2]] for o in GK]
for _n in ('merge_key_add', 'merge_key_remove'):
    GROUPS['gasless'][_n]['oracles'] = GK + GK2
GROUPS['gasless']['check_and_bump_last_used_at']['bases'] = [{'ttl': t} for t in (0, 86400)]

# ---- small remaining pieces
INS = [r'HashMap::(<.*>::)?insert$', 'effect', 'insert', [0, 1, 2]]
GROUPS['batch'] = {'new': dict(fn=r'RocksDbTransactionBatch::new$'), 'put': dict(fn=r'RocksDbTransactionBatch::put$', oracles=[INS]), 'delete': dict(fn=r'RocksDbTransactionBatch::delete$', oracles=[INS]),
    'merge': dict(fn=r'RocksDbTransactionBatch::merge$'), 'len': dict(fn=r'RocksDbTransactionBatch::len$')}
GROUPS['trie_more'] = {
    'deserialize': dict(fn=r'trie_node::TrieNode::deserialize$', bases=[{'len(Message::decode(serialized).Ok.child_chars)': a, 'len(Message::decode(serialized).Ok.child_hashes)': b} for a in (0, 1) for b in (0, 1)]),
    'children': dict(fn=r'trie_node::TrieNode::children$'), 'items': dict(fn=r'MerkleTrie::items$'),
    'root_hash': dict(fn=r'MerkleTrie::root_hash$', oracles=[[r'TrieNode::hash$', 'value', 'hash', [0]]]), 
}
GROUPS['mempool_more'] = {
    'fid': dict(fn=r'mempool_poller::MempoolMessage::fid$'), 'to_proto': dict(fn=r'mempool_poller::MempoolMessage::to_proto$', bases=[{'discr(self)': n} for n in range(5)]), 'identity': dict(fn=r'mempool::mempool::.*::identity$'),
}
GROUPS['limits_more'] = {'limits default': dict(fn=r'stores::Limits::default$'), 'store limits new': dict(fn=r'StoreLimits::new$')}
GROUPS['engine_errors'] = {'from': dict(fn=r'block_engine::MessageValidationError as std::convert::From<snapchain::storage::store::engine::MessageValidationError>>::from$')}
GROUPS['event_ids_more'] = {'generator': dict(fn=r'HubEventIdGenerator::new$'), 'is_old': dict(fn=r'is_old_verification_by_address_value$')}
GROUPS['asset_id'] = {'for_channel': dict(fn=r'channel_uri::.*for_channel$')}
GROUPS['peers'] = {'connected_peer': dict(fn=r'http_server::ConnectedPeerJson as .*TryFrom')}

DEF = lambda t: r'<%s as std::default::Default>::default$' % t
GROUPS['defaults'] = {n: dict(fn=DEF('snapchain::' + n)) for n in (
    'cfg::StatsdConfig', 'cfg::PruningConfig', 'cfg::ReplicationConfig', 'cfg::Config', 'connectors::fname::Config', 'connectors::onchain_events::Config', 'consensus::consensus::Config',
    'network::http_server::Config', 'network::mesh::config::Config', 'network::replication::replicator::ReplicatorSnapshotOptions', 'storage::db::snapshot::BootstrapMethod', 'storage::db::snapshot::Config',
    'mempool::block_receiver::Config', 'mempool::mempool::Config', 'network::gossip::Config', 'bootstrap::replication::service::ReplicatorBootstrapConfig', 'mempool::rate_limits::RateLimitsConfig', 'network::rate_limits::RateLimitsConfig')}
for _n in list(GROUPS['defaults']):
    if 'rate_limits' in _n: del GROUPS['defaults'][_n]
GROUPS['chunk_writer'] = {n: dict(fn=r'(MultiChunkWriter::|MultiChunkWriter as std::io::Write>::)%s$' % n) for n in ('new', 'next_part', 'finish', 'write', 'flush', 'ensure_directory_exists')}
GROUPS['chunk_writer']['write']['pats'] = [[r'^Write::write\(.*\)\.Ok$', [[0, 1 << 20]]]]
GROUPS['chunk_writer']['write']['bases'] = [dict({'discr(ParCompressBuilder::num_threads(ParCompressBuilder::new(), 4))': 0, 'Path::exists(self.base_path)': 1, 'discr(self.encoder)': d, 'self.max_size': 1000, 'self.current_part': ((0, 1 << 30),)}, **c) for d in (0, 1)
    for c in ({'len(buf)': ((0, 400),), 'self.current_size': ((0, 600),)}, {'len(buf)': 400, 'self.current_size': 601}, {'len(buf)': 401, 'self.current_size': 600}, {'len(buf)': ((1001, 5000),), 'self.current_size': 0})]
GROUPS['chunk_writer']['next_part']['bases'] = [{'self.current_part': ((0, 1 << 30),)}]
TRF = 'await Response::json(await reqwest::get(Url::parse(base_url).Ok).Ok).Ok.transfers'
GROUPS['fname'] = {'fetch_transfers_for_fname': dict(fn=r'connectors::fname::fetch_transfers_for_fname$', oracles=[['append_pair$', 'effect', 'append_pair', [1, 2]], ['transfer_to_fname_transfer$', 'value', 'converted', [0]]], bases=[{'len(%s)' % TRF: n} for n in (0, 1)]),
   'lookup_fname': dict(fn=r'connectors::fname::.*\blookup_fname$', oracles=[['fetch_transfers_for_fname', 'value', 'fetch', [0, 1]]])}
GROUPS['mesh_more'] = {n: dict(fn=r'mesh::(metrics|nodes|render|cache|diagnostics)::.*\b%s$' % n) for n in ('view', 'topology', 'contact_source_label', 'status_from_arc', 'read_to_end')}
GROUPS['cutoff'] = {'cutoff_timestamp': dict(fn=r'event_pruning::cutoff_timestamp$')}
GROUPS['boot_files'] = {'move_dir_contents': dict(fn=r'move_dir_contents$', bases=[{'len(fs::read_dir(src).Ok)': n} for n in (0, 1)])}
TM = 'trie_messages'
UM = 'trie_messages[0].trie_message.Some.UserMessage.'
GROUPS['boot_signatures'] = {'validate_messages_signatures': dict(fn=r'validate_messages_signatures$', oracles=[['validate_message_hash$', 'value', 'hash_ok', [0, 1, 2]], ['verify_batch$', 'value', 'verify_batch', [0, 1, 2]]], bases=[{'len(trie_messages)': 0}, {'len(trie_messages)': 1, 'len(%ssigner)' % UM: 32}])}
GROUPS['message_kind'] = {'into_i32': dict(fn=r'IntoI32>::into_i32$')}

GROUPS['storage_units']['is_active'] = dict(fn=r'StorageSlot::is_active$')
GROUPS['storage_active'] = {'is_active': dict(fn=r'StorageSlot::is_active$')}
GROUPS['key_options'] = {n: dict(fn=r'::%s$' % n) for n in ('make_cast_by_parent_key', 'make_cast_by_mention_key', 'make_reactions_by_target_key', 'make_reaction_adds_key', 'make_reaction_removes_key', 'make_message_primary_key')}
GROUPS['key_options']['links_by_target'] = dict(fn=r'LinkStore.*::links?_by_target_key$')
GROUPS['snapshot_config'] = {'upload_enabled': dict(fn=r'snapshot::Config::snapshot_upload_enabled$'), 'directory': dict(fn=r'snapshot::snapshot_directory$')}
GROUPS['chunk_writer']['write']['pats'] = [[r'^Write::write\(.*\)\.Ok$', [[0, 1 << 20]]], [r'len\(', [[0, 1 << 30]]]]
GROUPS['page_tokens'] = {'decode': dict(fn=r'decode_trie_page_token$', bases=[{'len(bytes)': n} for n in (0, 3, 4, 5)]), 'encode': dict(fn=r'encode_trie_page_token$')}
# what a peer sends, decoded
_M = 'Message::decode(bytes).Ok.'
_C = _M + 'consensus_message.Some.'
_BAD = ((0, 31), (33, 1 << 20))
_D = lambda t: r'SnapchainCodec as .*Codec<.*%s.*::decode$' % t
_FP = [{'discr(Message::decode(bytes))': 1}] + [dict({'discr(Message::decode(bytes))': 0, _M + 'round': r, 'len(%sproposer)' % _M: n, 'discr(%sheight)' % _M: h}, **v) for r, n, h in ((((0, 2**32 - 1),), 32, 1), (((0, 2**32 - 1),), _BAD, 1), (((-(2**63), -1),), 32, 1), (((2**32, 2**63 - 1),), 32, 1), (((0, 2**32 - 1),), 32, 0))
    for v in [{'discr(%sproposed_value)' % _M: 0}] + [dict({'discr(%sproposed_value)' % _M: 1, 'discr(%sproposed_value.Some)' % _M: k, 'discr(%sproposed_value.Some.%s.header)' % (_M, w): 0 if q < 0 else 1}, **({'discr(%sproposed_value.Some.%s.header.Some.height)' % (_M, w): q} if q >= 0 else {})) for k, w in ((0, 'Block'), (1, 'Shard')) for q in (-1, 0, 1)]]
_S = _M + 'sync_response.Some.'
_V = _S + 'VoteSet.'
_W = lambda w: 'value.value.Some.%s.' % w
def base(w, i):
    return {'discr(value.value)': 1, 'discr(value.value.Some)': i, 'discr(%sheader)' % _W(w): 1, 'discr(%sheader.Some.height)' % _W(w): 1, 'discr(%scommits)' % _W(w): 1, 'discr(%scommits.Some.height)' % _W(w): 1, 'discr(%scommits.Some.value)' % _W(w): 1,
            'len(%scommits.Some.signatures)' % _W(w): 1, 'len(%scommits.Some.signatures[0].signer)' % _W(w): 32}
def wrong(w):
    return [{}, {'len(%scommits.Some.signatures)' % _W(w): 0}, {'len(%scommits.Some.signatures[0].signer)' % _W(w): _BAD}] + [{'discr(%s%s)' % (_W(w), f): 0} for f in ('header', 'header.Some.height', 'commits', 'commits.Some.height', 'commits.Some.value')]
GROUPS['peer_decode'] = {
    'signed message': dict(fn=_D('SignedConsensusMsg'), bases=[{'discr(Message::decode(bytes))': 1}, {'discr(Message::decode(bytes))': 0, 'discr(%sconsensus_message)' % _M: 0}] +
        [{'discr(Message::decode(bytes))': 0, 'discr(%sconsensus_message)' % _M: 1, 'discr(%sconsensus_message.Some)' % _M: i, 'len(%s)' % (_C + f): n} for i, f in ((0, 'Vote.voter'), (1, 'Proposal.proposer')) for n in (32, _BAD)]),
    'stream message': dict(fn=_D('StreamMessage'), bases=_FP),
    'full proposal': dict(fn=r'SnapchainCodec as .*Codec<snapchain_proto::FullProposal>.*::decode$', bases=_FP),
    'status': dict(fn=_D('Status<')), 'request': dict(fn=_D('Request<')),
    'response': dict(fn=_D('Response<'), bases=[{'discr(Message::decode(bytes))': 1}, {'discr(Message::decode(bytes))': 0, 'discr(%ssync_response)' % _M: 0}] +
        [{'discr(Message::decode(bytes))': 0, 'discr(%ssync_response)' % _M: 1, 'discr(%ssync_response.Some)' % _M: 0, 'len(%sValue.commits.Some.signatures)' % _S: k, 'len(%sValue.commits.Some.signatures[0].signer)' % _S: n} for k, n in ((0, 32), (1, 32), (1, _BAD))] +
        [{'discr(Message::decode(bytes))': 0, 'discr(%ssync_response)' % _M: 1, 'discr(%ssync_response.Some)' % _M: 1, 'len(%svotes)' % _V: k, 'len(%ssignatures)' % _V: k, 'len(%svotes[0].voter)' % _V: n} for k, n in ((0, 32), (1, 32), (1, _BAD))]),
    'decided value well formed': dict(fn=r'ReadValidator::is_well_formed$', bases=[{'discr(value.value)': 0}] + [dict(dict(base(w, i), **x)) for i, w in ((0, 'Block'), (1, 'Shard')) for x in wrong(w)]),
}

_rv['oracles'] = _rv['oracles'] + [['ReadValidator::is_well_formed$', 'bool', 'is_well_formed', [0]]]
GROUPS['read_validator']['validate_protocol_version']['oracles'] = GROUPS['read_validator']['validate_protocol_version']['oracles']
GROUPS['boot_signatures']['validate_messages_signatures']['bases'] = [{'len(trie_messages)': 0}, {'len(trie_messages)': 1}]

GROUPS['gossip_in'] = {'gossip': dict(fn=r'map_gossip_bytes_to_system_message$', oracles=[['handle_contact_info$', 'effect', 'contact_info', [1, 2]], ['message_bytes_decode$', 'effect', 'data_bytes_decoded', [0]]]),
    'sync': dict(fn=r'map_sync_message_to_system_message$', oracles=[['Codec.*::decode$', 'value', 'decoded', [1]]]),
    'contact': dict(fn=r'SnapchainGossip::handle_contact_info$', bases=[{'self.read_node': 0}])}
GROUPS['config_load'] = {'load_and_merge_config': dict(fn=r'cfg::load_and_merge_config$', oracles=[['Parser>?::try_parse_from$', 'value', 'cli', [0]], ['Serialized.*::defaults$', 'value', 'defaults', []], ['fs::read_to_string$', 'value', 'read', [0]], ['Path::exists$', 'value', 'exists', [0]], ['toml::.*Error::span$', 'value', 'span', [0]], ['toml::.*Error::message$', 'value', 'message', [0]], ['Figment::extract$', 'value', 'extract', [0]]])}
GROUPS['migration_rows'] = {'is_old_verification_by_address_value': dict(fn=r'is_old_verification_by_address_value$')}
_LK = [r'(Mutex|RwLock)(::)?<.*>::(lock|read|write)$', 'value', 'lock', [0]]
_INS = [r'HashMap(::)?<.*>::insert$', 'effect', 'stored', [1, 2]]
_MD = [r'get_shard_metadata$', 'value', 'metadata', [0, 1]]
_SNAP = 'await metadata(%s).Ok.snapshots'
GROUPS['boot_client'] = {
    'get_shard_metadata': dict(fn=r'rpc_client::.*get_shard_metadata$'),
    'ask with retries': dict(fn=r'call_get_shard_transactions_with_retry$', bases=[{'config.max_rpc_retries': n} for n in (1, 2)], oracles=[_LK]),
    'get_shard_transactions': dict(fn=r'rpc_client::.*get_shard_transactions$', oracles=[[r'handle_response_and_spawn_next$', 'effect', 'prefetch', [1, 2]], [r'call_get_shard_transactions_with_retry$', 'value', 'ask', [0, 1]], [r'get_peer_for_vts$', 'value', 'peer', [1]], _LK]),
    'prefetch': dict(fn=r'handle_response_and_spawn_next$', oracles=[[r'call_get_shard_transactions_with_retry$', 'value', 'ask', [0, 1]], [r'get_peer_for_vts$', 'value', 'peer', [1]], _LK, _INS]),
    'add_new_peer': dict(fn=r'rpc_client::.*add_new_peer$', oracles=[_MD, _LK], bases=[
        dict({'len(%s)' % (_SNAP % 'peer_address, self.shard_id'): n, 'len(await lock(self.inner).peer_manager.peer_addresses)': m, 'in(peer_address,await lock(self.inner).peer_manager.peer_addresses)': k},
             **({'eq(await lock(self.inner).peer_manager.peer_addresses[0],peer_address)': k} if m else {})) for n in (0, 1) for m, k in ((0, 0), (1, 0), (1, 1))]),
}
