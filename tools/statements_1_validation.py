"""Message validation."""
VAL = 'src/core/validations/'
M, CAST, LINK, REACT, VER, KEY, CS = (VAL + x for x in ('message.rs', 'cast.rs', 'link.rs', 'reaction.rs', 'verification.rs', 'key.rs', 'contract_signature.rs'))
URI = 'src/core/channel_uri.rs'
VM = [('message validation entry point and per-kind rules', M + ' (validate_message and the body validators it dispatches to)')]
SAMPLED = 'The unit tests build a handful of well-formed messages and mutate one field at a time; the rule quantifies over every combination of field values, protocol versions and both ways of carrying the data.'
IN = ['inputs', 'configurations']


def p(id, title, statement, forall, files, mech=None, why=None, over=IN, **kw):
    return dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why or SAMPLED, files=files, mech=mech or VM, **kw)


P = [
    p('V01', 'A message is accepted only with a matching hash and its signer\'s signature',
      'A message is accepted only if its hash is the 20-byte truncated BLAKE3 digest of exactly the data it carries, its hash and signature schemes are the supported ones, and its signature is a strictly valid Ed25519 signature of that hash by the key it names. Missing, empty, or undecodable data and malformed keys or signatures are refused. This holds equally for data carried inline and data carried as serialised bytes.',
      'every message, carried inline or as bytes, on every network and at every protocol version', [M]),
    p('V02', 'A mainnet node accepts only mainnet messages',
      'A node running on mainnet refuses every message marked for another network, and every node refuses messages marked with no network or an unknown one. On non-mainnet nodes any known network is accepted.',
      'every combination of node network and message network number', [M]),
    p('V03', 'Encoded message size is limited by kind, pro status and protocol version',
      'A message whose encoded data exceeds the limit for its declared type is refused and one at the limit is not refused for size: 2,048 bytes generally; from version 5 on, 65,536 for compact link state, 16,384 for cast adds by pro users, and from version 15 on 16,384 for username proofs.',
      'every declared type, encoded length, protocol version and pro status', [M]),
    p('V04', 'Messages more than ten minutes in the future are refused',
      'From protocol version 6 on, a message stamped more than 600 seconds after the time of the block it is validated against is refused; a message at most 600 seconds ahead, or any amount behind, is never refused for its time. Before version 6 the timestamp does not matter.',
      'every message timestamp, block time and protocol version', [M]),
    p('V05', 'Every kind of message body is checked by its own rules, at its own version',
      'No kind of message body escapes the rules for that kind: a body that is invalid for its kind is refused whatever kind it is. The four kinds of channel message are refused before protocol version 21.',
      'every body kind the wire schema defines, at every protocol version', [M, CAST, LINK, REACT, VER, KEY]),
    p('V06', 'Casts respect their text, embed and mention limits',
      'A cast is accepted only if its text length fits its type (at most 320 bytes; 321-1,024 for long casts; 1,025-10,000 for ten-thousand-character casts, pro users only), it has at most four embeds (two for non-pro users before version 20), it does not mix old and new embeds or use old ones after their cutoff, and it is not empty. It has at most ten mentions, one position per mention, positions non-decreasing and not past the end of the text, and no mention of user 0. Casts within all limits are accepted.',
      'every cast: type, text length, embed lists, mention lists, timestamp, pro status, protocol version', [CAST, M]),
    p('V07', 'Every reference a cast carries is well formed',
      'Every embed, every old-style embed and the parent of an accepted cast is a URL of 1-256 bytes or a cast reference with a non-zero user and a 20-byte hash, whatever its position in the list. A cast removal names a 20-byte hash.',
      'every element of every reference list of every cast, and every cast removal', [CAST, VAL + 'mod.rs', M]),
    p('V08', 'Reactions and links have a valid type and target',
      'Reactions (added or removed) have a known reaction type and a target that is a 1-256 byte URL or a cast reference with a non-zero user and 20-byte hash. Links (added, removed or compacted) have a type of 1-8 bytes and only non-zero target users, at least one. Bodies satisfying these rules are accepted.',
      'every reaction, link and compact link state, every element of the target list', [REACT, LINK, M]),
    p('V09', 'Profile fields respect their length limits and availability',
      'Profile values longer than the limit of their field are refused: 32 bytes for the display name, 256 for picture, bio, URL, banner, live URL and token, 15 for Twitter and 38 for GitHub handles. Banners are only for pro users; primary addresses, the profile token and the live URL are refused before versions 5, 10 and 17 respectively; unknown fields are refused. Values within the limits are accepted, and clearing an available field with an empty value is allowed.',
      'every profile field number, value, pro status and protocol version', [M]),
    p('V10', 'Usernames, name proofs and handles use only their canonical form',
      'A plain username is 1-16 characters of lower-case letters, digits and inner hyphens; an ENS name is such a label followed by .eth and at most 20 characters; a Base name is such a label followed by .base.eth and at most 25 characters; no extra subdomains. The same rules bind ENS and Base name proofs from version 5 (Base name proofs are refused before), other proof types are refused in messages, and Twitter and GitHub handles use only their own alphabets.',
      'every string, profile field and proof type, at every protocol version', [M]),
    p('V11', 'Locations, tokens and primary addresses are canonical',
      'A location is geo: with two-decimal latitude in [-90, 90] and longitude in [-180, 180]; a profile token is a CAIP-19 identifier of at most 256 bytes; a primary Ethereum address is 0x with 40 hex digits in checksum form; a primary Solana address is base58 of exactly 32 bytes. Anything else is refused, and anything of that form is accepted.',
      'every string value of these profile fields', [M]),
    p('V12', 'Address verifications are well formed and signed by the address',
      'An Ethereum verification has a 20-byte address, 32-byte block hash, a known verification type, a supported chain (numbers below 65,536), and for key-controlled accounts a 65-byte signature recovering to exactly that address; a Solana verification has a 32-byte address and block hash and a valid 64-byte signature by that address. Removals name an address of the right length for the protocol. Unknown protocols are refused.',
      'every verification body, every length and chain number, every verdict of the signature', [VER, M]),
    p('V13', 'An address claim is valid only for the user, address, network and block it names',
      'The document an address-verification signature must cover contains exactly the claiming user, the address, the block hash, the network of the message and the protocol\'s own domain, for Ethereum accounts, Solana accounts and contracts alike (contracts also bind the chain). A signature over any other document does not verify.',
      'every verification on every network, both signature parities, for all three kinds of account', [VER]),
    p('V14', 'Key authorisations are limited in kind, lifetime and scope',
      'A key addition is accepted only with a 32-byte key of the supported type, a non-zero deadline, a lifetime of 1 to 7,776,000 seconds, supported non-empty metadata, and 1-16 scopes each of which may be delegated; a key addition can never delegate adding or removing keys or other non-delegable operations. A key removal needs a 32-byte key, a deadline and a known signature type.',
      'every key addition and removal, every element of the scope list', [KEY, M]),
    p('V15', 'Custody signatures on keys cover every field of the authorisation',
      'The address that authorises a key addition or removal is the one recovered over a document containing exactly the user, key, nonce and deadline (plus type, scopes and lifetime for additions) under the chain\'s domain. The accompanying signed request is accepted only if it decodes, its fields fit 64 bits, it has not expired, and its signature over exactly the requesting user, key and deadline recovers to the named requester.',
      'every authorisation payload, signature and chain, both parities', [KEY]),
    p('V16', 'A contract wallet signature counts only on the contract\'s explicit approval',
      'For an address with code the signature is valid only if the wallet answers with the standard approval value for exactly this hash and signature; for an address without code only if the universal verifier answers 1 for exactly this address, hash and signature. A revert counts as invalid, and transport or other node failures are errors rather than a verdict.',
      'every answer of the chain node to the two queries, including failures', [CS], over=['inputs', 'fault_sequences']),
    p('V17', 'Channel messages are well formed',
      'Every channel message carries a 32-byte channel id; updates carry only known casting and membership modes; member messages name a user between 1 and 2^32-1 and a known action; a pin names a 20-byte cast or nothing; a moderation names a 20-byte cast and a known action. Well-formed channel messages are accepted from version 21.',
      'every channel message body', [M]),
    p('V18', 'Frame actions and storage lending respect their limits',
      'Frame actions have a button number of at most 5, a URL of 1-1,024 bytes, input and transaction id of at most 256, state of at most 4,096, an address of at most 64 bytes, and a well-formed cast reference if any. Storage lending moves at most 5,000 units of a known type and is refused when stamped more than 600 seconds before the block time.',
      'every frame action and storage-lending body, message timestamp and block time', [M]),
    p('V19', 'A username transfer is accepted only with the name server\'s signature over it',
      'A username transfer is accepted only if a 65-byte signature over exactly the name, timestamp and owner, in the name registry\'s domain, recovers to the configured name server address, or to the public default when none is configured. Everything else is refused on networks where transfers are checked.',
      'every transfer, signature and configured signer', [VER]),
    p('V20', 'Only one spelling of a channel follow maps to a channel',
      'A follow target maps to a channel only if it is the canonical asset identifier of a token of the network\'s channel registrar: decimal chain number without extra digits, checksummed contract address, decimal token without leading zeros. The channel is then exactly that token number in 32 big-endian bytes; any other spelling, chain or contract maps to nothing; mainnet has no registrar yet.',
      'every string and every network', [URI]),
    p('V21', 'No message can crash the validator',
      'Whatever bytes a message or key authorisation carries, validation returns a verdict and never panics: no out-of-range index, failed conversion or arithmetic overflow is reachable.',
      'every message of every kind and both ways of carrying the data, at block times at least 600 s after the epoch', [M, CAST, LINK, REACT, VER, KEY, URI]),
]
VERF = 'src/version/version.rs'
P += [
    p('E01', 'Each protocol feature is active at exactly its published versions', 'For every protocol feature, the node answers that it is active exactly for the versions published for it: from its introduction onward, with the one historical signer-revocation exception at versions 1 and 3 only.',
      'every feature at every protocol version', [VERF], [('feature activation', VERF + ' is_enabled')], 'Tests sample a few features at a few versions; a single wrong boundary makes nodes disagree during replay of history.', ['configurations']),
    p('E02', 'Every instant of every network maps to its published protocol version', 'At every instant the protocol version of mainnet, testnet and development networks is the one published in the upgrade schedule, a version taking effect exactly at its activation second; the next-upgrade lookup returns exactly the next activation instant. Channel data in replication snapshots is enabled by that same version.',
      'every second from the epoch to beyond the schedule, on every network', [VERF], [('upgrade schedules and lookups', VERF + ' version_for, next_version_timestamp_for')], 'Tests look up a few sample instants; the property is about every second, especially the activation seconds themselves.', ['inputs', 'configurations']),
    p('E03', 'Each version advertises its published peer protocol number', 'The peer-protocol number a node advertises is the published one for its protocol version and never decreases as versions advance.', 'every protocol version', [VERF], [('protocol number', VERF + ' protocol_version')], 'Tests check only a few versions.', ['configurations']),
    p('E04', 'Channel features activate together and never without a registrar', 'The five consensus-coupled channel features (registrations, ordered system events, ownership events, channel messages and shard-0 verifications) are active at exactly the same versions. On no real network does the schedule reach channel follows while that network has no channel registrar.', 'every protocol version, every network and every instant', [VERF, URI], [('activation arms', VERF + ' is_enabled'), ('registrar lookup', URI + ' channel_registrar_for_network')], 'The existing tests check the current constants by name; they do not relate schedule, features and registrar for all versions.', ['configurations']),
    p('T01', 'Time conversions are exact and inverse', 'Converting between Unix time and network time shifts by exactly the network epoch in both directions, so converting back returns the original second; instants before the epoch or past the 32-bit range are refused by the millisecond conversion rather than wrapped. Adding and subtracting seconds is exact.', 'every representable time', ['src/core/util.rs'], [('time type', 'src/core/util.rs FarcasterTime, to_farcaster_time, from_farcaster_time')], 'Tests convert a few sample instants.', ['inputs']),
]
