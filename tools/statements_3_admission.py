"""Admission by the engines, and the JSON face of messages."""
ST = 'src/storage/store/'
WHY = 'Tests submit a few messages of some types under one version; an admission rule dropped for one type, one protocol version or one kind of key is only visible to the message that uses it. The rule is over every message, version and store answer.'


def p(id, title, statement, forall, files, mech, why=None, **kw):
    return dict(id=id, title=title, statement=statement, over=kw.pop('over', ['inputs', 'histories']), forall=forall, why=why or WHY, files=files, mech=[(mech, ', '.join(files))], **kw)


P = [
    p('A01', 'A data shard admits only valid messages of registered users with live signers',
      'A data shard admits a user message only if message validation accepts it, its fid is registered, and (except key additions and removals, which authenticate when merged and are admitted only since V16) its signer is a key currently active for that fid. A gasless key must also have the message\'s type in its scopes and not be expired; admission then advances its last-use time, which on-chain keys do not have. Storage lends and channel messages are never admitted on data shards, verifications not since V21. A username or primary-address user-data message also needs the fid to own that name or address. Before V7 the lookups do not see the writes pending in the same block. A failing lookup refuses the message.',
      'every message, engine version, signer kind and store state', [ST + 'engine.rs'], 'ShardEngine::validate_user_message'),
    p('A02', 'Shard 0 admits only its own message types, within storage caps and lend limits',
      'Shard 0 admits only verifications and channel messages (since V21), key additions and removals (since V16) and storage lends; validity, registration, signer, scope and expiry are required as on data shards. A verification is capped by the fid\'s storage units: live additions by 5 per unit, removal tombstones and the total of rows by their own caps with a floor of 256; without storage nothing new is stored, replacing a row is always possible, and the message\'s own time must also be past activation. A lend must leave the lender at least one unit since V13, never exceed what it holds, and on mainnet requires 1000 purchased units of the lent kind. Channel messages must also satisfy the channel rules.',
      'every message, version, unit count, row count and store state', [ST + 'block_engine.rs'], 'BlockEngine::validate_user_message_with_verification_counts'),
    p('A03', 'Channel actions follow the authority table of owner, moderators and members',
      'Owners and moderators add and remove members, ban and unban; only the owner adds or removes moderators or bans a moderator; a user may join an open channel and leave any channel itself; the owner cannot be banned; a banned user can only be unbanned; actions that do not fit the target\'s current state are refused. A channel message names a registered channel by a 32-byte id (and a cast by a 20-byte hash); updates need the owner; pins and moderation the owner or a moderator; a parked channel accepts only members leaving; a channel has at most 10 moderators. A failing lookup refuses the message.',
      'every action, role, target state, membership mode and channel state', [ST + 'block_engine.rs'], 'channel_member_authority and BlockEngine::validate_channel_message'),
]
HW = 'Tests convert a handful of messages; a swapped field, a wrong enum name or a dropped optional shows only for the variant and presence pattern that has it. The table covers every variant and every pattern of present and absent fields.'
H = 'src/network/http_server.rs'
P += [
    p('H01', 'HTTP JSON shows every message body with its own fields, names and encodings',
      'Each message body is rendered with exactly its own fields, each carrying the value the message has: numbers unchanged, addresses as 0x-prefixed lower-case hex (base58 where the protocol is Solana), enumeration values by their published names, byte fields in their field\'s encoding, lists in order and absent optional fields absent. A body that lacks a required part, or holds an enumeration value the protocol does not define, is an error and never rendered as another value.',
      'every message body, variant and pattern of present fields', [H], 'map_proto_*_body and related mappers', HW, over=['inputs']),
    p('H02', 'HTTP JSON shows the message envelope unchanged and types by name',
      'A message is rendered with its data, 0x-hex hash, hash scheme name, signature, signature scheme name and 0x-hex signer; its data with type name, fid, time, network name and the body, under the field of its kind only. A page lists its messages in order with its page token. A message without data or body, or with an undefined type, network or scheme, is an error.',
      'every message and presence pattern', [H], 'map_proto_message_to_json_message, map_proto_message_data_to_json_message_data, list mappers', HW, over=['inputs']),
    p('H03', 'HTTP JSON shows hub events and on-chain events with their own kind\'s fields',
      'A hub event is rendered with its id, its type name, its block and shard numbers and the body of its kind only, containing the message(s) it merged, pruned, deleted or revoked, the on-chain event, the proof or the block confirmation, unchanged. An on-chain event is rendered with type, chain, block, transaction, log, fid and the one body of its kind, each enum by its name. An event without a body or of an undefined type is an error.',
      'every event kind and presence pattern', [H], 'map_proto_hub_event_to_json_hub_event, map_proto_on_chain_event_to_json_on_chain_event', HW, over=['inputs']),
]
P += [
    p('H04', 'HTTP endpoints ask the node the right question and relay its answer',
      'Each HTTP endpoint translates its parameters into the request of the service method of the same purpose, calls that method once, and answers with the converted result; a parameter the request cannot be built from, a refusal by the service or an answer that cannot be shown becomes an error answer, never a success. Channels, member states, contacts and service status are shown with their own fields, and a gRPC refusal becomes an HTTP error with the matching status.',
      'every endpoint, request and service answer', [H], 'HubHttpServiceImpl methods, error and info mappers', HW, over=['inputs', 'faults']),
    p('H05', 'HTTP query parameters reach the node under their published names',
      'Every HTTP request reads the parameters it publishes, in snake case with the camel-case spelling as a fallback, and passes each one to the field of the service request it names: fids, hashes, names, links, page size, page token, direction and time bounds unchanged. A value that does not decode is an error. A parameter that is absent stays absent.',
      'every request type and every pattern of present parameters', [H], 'to_proto of the request types and their derived parameter readers', HW, over=['inputs']),
    p('H06', 'HTTP answers use the published field names and encodings',
      'Every HTTP answer type is written with each of its fields under its published (camel-case) name and in its published encoding (0x-hex, base64, number, text), with absent optional parts left out exactly where the interface says so.',
      'every answer type and every pattern of present parts', [H], 'derived writers of the answer types and serdehex, serdebase64', HW, over=['inputs']),
]
