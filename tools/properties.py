#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to rewrite that file."""
import json, os

OUT = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over.split(), "text": text},
                "why_tests_cant": why, "anchors": a})


API = "crates/ethportal-api/src/"
NET = "crates/portalnet/src/"
STO = "crates/storage/src/"
VAL = "crates/validation/src/"
SUB = "crates/subnetworks/"
LC = "crates/light-client/src/"
E2 = "crates/e2store/src/"
BR = "bin/portal-bridge/src/"

# ---------------------------------------------------------------- small shared building blocks
p("H01", "Hex text decodes back to the bytes it encodes and nothing else is accepted",
  "Encoding bytes as 0x-prefixed hex (lower or upper case) and decoding the text gives the same bytes, and encoding always yields the prefix plus two digits of the announced case per byte. Decoding accepts exactly the strings made of 0x or 0X followed by an even number of hex digits; every other string, including non-ASCII ones, is refused with an error that distinguishes a missing prefix, a wrong prefix and bad digits, and never with a crash. The compact form shows values of up to eight bytes in full and longer ones as their first two and last two bytes.",
  "inputs", "All byte strings up to a length bound and all strings over an alphabet holding the prefix characters, digits, letters, out-of-range and multi-byte characters up to a length bound.",
  "The unit tests try nine literals; the input space (every byte, every prefix spelling, every character boundary) is only reachable by enumeration.",
  [API + "utils/bytes.rs"], [("hex_encode / hex_decode / hex_encode_upper / hex_encode_compact", API + "utils/bytes.rs")],
  ["return value of encode and decode"])
p("H02", "Random ids have exactly the requested number of leading zero bits",
  "A random 32-byte value requested with n leading zero bits has exactly n leading zero bits, for every n from 0 to 255 and whatever the random source yields. All bits after the first set bit stay free: each of them takes both values for some outcome of the random source, and the byte holding the first set bit takes every value that keeps the count.",
  "inputs schedules", "All 256 requested counts times every outcome of the deciding random draw, with the remaining random bytes driven to both extremes.",
  "Three tests draw one random sample for three counts; a wrong boundary (for instance at multiples of eight) needs a particular count and a particular draw.",
  [API + "utils/bytes.rs"], [("random_32byte_array", API + "utils/bytes.rs")], ["returned array"])
p("H03", "Client names are recognised exactly, whatever their letter case",
  "Each known client name maps to its client type in any mix of letter case, and every other name, including names that merely contain or extend a known one, maps to the unknown type carrying the lower-cased name. The printed form of a known type is its name and that of an unknown type shows the carried name when there is one.",
  "inputs", "All case variants of each known name, all single-character edits of each, and short strings over a small alphabet.",
  "No test covers this module.",
  [API + "types/client_type.rs"], [("ClientType::from / Display", API + "types/client_type.rs")], ["returned client type and its text"])
p("H04", "JSON-RPC parameters decode by shape and keep every value",
  "A JSON value decodes as request parameters exactly when it is null, an array or an object, and the decoded form is the matching one. Converting the decoded parameters back to a JSON value, or serialising and decoding them again, reproduces the original value with all elements in order.",
  "inputs", "All JSON values up to a nesting and width bound over a set of distinguishable leaves.",
  "Unit tests list eleven arrays; null, objects, scalars and the conversion back are not exercised.",
  [API + "types/jsonrpc/params.rs"], [("Params", API + "types/jsonrpc/params.rs")], ["decoded parameters"])
p("F01", "Fork names, texts and digests correspond one to one",
  "Each supported fork has one digest, one text form and one capitalised form, all pairwise distinct, and converting a fork to a digest or text and back gives the same fork; the digests are the mainnet ones. Every other digest and every other text (apart from case variants and the historical alias of the first fork) is refused, the error naming the input.",
  "inputs", "All four forks, all digests in enumerated windows (every digest in the thorough tier), and all case variants and one-character edits of every fork name.",
  "Unit tests visit only the four valid digests and lower-case names; rejection and case handling need enumeration.",
  [API + "types/consensus/fork.rs"], [("ForkName conversions", API + "types/consensus/fork.rs")], ["converted values and errors"])
p("F02", "Fork calendar puts every slot, epoch and timestamp in the right fork",
  "The consensus constants and the execution fork schedule describe the same mainnet calendar: for every slot around each boundary, slot time, epoch and active fork agree between the two layers. A fork is active at a block or timestamp exactly from its activation point on, once active it stays active, and the slot-to-timestamp conversion is the genesis time plus twelve seconds per slot.",
  "inputs configurations", "All forks times all slots, timestamps and block numbers in windows around every activation point, plus coarse strides across the whole calendar.",
  "No existing test compares the consensus calendar with the execution fork schedule.",
  [API + "types/consensus/constants.rs", API + "types/network_spec.rs", API + "types/consensus/historical_summaries.rs"],
  [("constants", API + "types/consensus/constants.rs"), ("NetworkSpec", API + "types/network_spec.rs")], ["fork activity queries"])
p("F03", "Network names read back as written and subnetworks bring what they need",
  "Every network and subnetwork has one name, the text it prints on a command line is the text that is read back as it, and every other text is refused with an error that names it; the main and test networks use the right chain. The printed labels and JSON forms of subnetworks are pairwise distinct. The set of subnetworks one depends on is complete (it includes the dependencies of its members), free of repetitions and of the subnetwork itself, and is what the beacon, legacy history and state networks need; listing a subnetwork with its dependencies puts it first.",
  "inputs configurations", "All networks and subnetworks, all texts within a bounded number of edits of a name, and all joins of two pieces of names.",
  "No test covers this module.",
  [API + "types/network.rs"], [("Network / Subnetwork conversions", API + "types/network.rs"), ("Subnetwork::dependencies / with_dependencies", API + "types/network.rs")], ["texts, parsed values, dependency lists"])
p("M01", "A duration timer records at most one sample, only when told to",
  "Stopping a timer with recording adds exactly one sample equal to the elapsed time to its own histogram and returns that time; stopping with discard returns the elapsed time and adds nothing. A timer that is merely dropped, including during a panic or on another thread, adds nothing, and timers sharing a histogram do not affect one another.",
  "histories schedules", "All sequences of create, advance-clock, record, observe, discard, drop and panic-drop operations on up to three timers over two histograms, with an owned clock.",
  "Tests run each stop mode once on one timer with real sleeps; multi-timer histories and exact values are out of reach with a real clock.",
  ["crates/metrics/src/timer.rs"], [("DiscardOnDropHistogramTimer", "crates/metrics/src/timer.rs")], ["histogram sample count and sum"])
p("M02", "Metrics count what happened, each under its own labels",
  "After any sequence of reports, the published metrics have changed by exactly what was reported and nothing else: messages by network, direction and kind (every form of offer is an offer), transfers by direction and outcome with the number of open ones, validations by result, sizes, radius as part of the whole, number of entries, timers that were stopped, offers and gossip of the bridge by content, client and result, and the known slots with their lag and the delays between updates. The summaries of messages, transfers and storage state these numbers in the places named for them, and asking for one changes nothing.",
  "histories", "All sequences of up to two reports of two networks, three (thorough: four) of one, with every kind of message, outcome, accept code and client; sequences of up to three (four) reports of slots.",
  "Tests cover the number of digits of a percentage.",
  ["crates/metrics/src/overlay.rs", "crates/metrics/src/storage.rs", "crates/metrics/src/labels.rs", "crates/metrics/src/bridge.rs", "crates/metrics/src/chain_head.rs", "crates/metrics/src/portalnet.rs"], [("reporters of metrics", "crates/metrics/src/overlay.rs")], ["text form of the registry, summaries"])
p("A01", "Checked arithmetic returns the exact result or an error, never a wrapped value",
  "Checked addition, subtraction, multiplication, division (rounding toward zero) and remainder return the mathematically exact result when it fits the type and an error otherwise, and checked shifts return the plain shift for amounts below the width of the type and an error for all others; division or remainder by zero is reported as division by zero, every other failure of addition, subtraction, multiplication and shifts as overflow. The assigning forms store the same result and leave the target unchanged on error, and a checked sum fails exactly when some running total does not fit.",
  "inputs", "All operand pairs of the 8-bit types, all shift amounts in range and beyond, and all pairs over boundary sets for the wider types, against wide-integer arithmetic.",
  "Tests use three operand pairs on one type.",
  [VAL + "merkle/safe_arith.rs"], [("SafeArith / SafeArithIter", VAL + "merkle/safe_arith.rs")], ["returned value or error, assigned target"])
p("B01", "Bridge mode arguments parse to exactly the modes they spell",
  "The bridge mode parser accepts exactly the documented spellings (the three bare modes, a snapshot at a block number, and a single inclusive block range whose start does not exceed its end) and yields the numbers written. Every other string is refused with an error rather than a crash.",
  "inputs", "All strings assembled from mode tokens, separators, numbers at boundaries and junk up to a length bound, against a reference grammar.",
  "Tests try one valid and four invalid strings.",
  [BR + "types/mode.rs"], [("BridgeMode::from_str / ModeType::from_str", BR + "types/mode.rs")], ["parsed mode or error"])
p("B02", "A block range splits into epochs that cover it exactly once",
  "Splitting an inclusive block range into 8192-block epochs yields exactly the epochs the range touches; an epoch wholly inside the range is marked complete and any other carries the inclusive sub-range it shares with the range. Expanding the result therefore reproduces every block of the range once and no other block, up to the largest block number.",
  "inputs", "All ranges whose ends lie within a few blocks of epoch boundaries over several epochs, including the last epoch of the number space.",
  "Four tests try five ranges.",
  [BR + "types/range.rs"], [("block_range_to_epochs", BR + "types/range.rs")], ["returned epoch map"])

# ---------------------------------------------------------------- wire formats and keys
p("W01", "Wire messages decode only from their own canonical encoding",
  "Every protocol message (ping, pong, find-nodes, nodes, find-content, content, offer, accept in both versions) decodes from its encoding to an equal message, and different messages have different encodings. Any byte string a decoder accepts re-encodes to that same string, ping and pong payloads above 1100 bytes are refused, requests never pass as responses or the other way round, and no byte string makes a decoder crash. An offer that carries its content goes out as an offer of the same keys in the same order, and a message filled up to the announced payload limits fits into one packet.",
  "inputs", "All messages over a bounded field alphabet and all byte strings that are within a bounded number of edits of an encoding, plus all short byte strings.",
  "Tests round-trip single hand-picked messages; truncations, trailing bytes, bad offsets and selectors are not covered.",
  [API + "types/portal_wire.rs"], [("Message and message structs", API + "types/portal_wire.rs")], ["decoded message, re-encoding"])
p("W02", "Batched content payloads split back into exactly the items sent",
  "Packing a list of content values into one transfer payload and unpacking it yields the same values in the same order, including empty and large values; the same holds for the single-value form. A payload that is truncated, has surplus bytes or announces more bytes than it holds is refused without crashing and without reserving memory for the announced size.",
  "inputs", "All lists of up to a bounded number of values over lengths at length-prefix boundaries, and every truncation, extension and prefix edit of their encodings.",
  "Tests cover a few fixed lists; malformed prefixes at every position are not enumerated.",
  [NET + "utils/portal_wire.rs"], [("encode/decode content payload", NET + "utils/portal_wire.rs")], ["decoded items or error", "peak allocation"])
p("W03", "Content keys of every network have one byte form and a stable id",
  "For every network, a content key decodes from its bytes to an equal key, its bytes are the spec selector followed by the key fields, and distinct keys have distinct bytes; text and JSON forms decode back too. The content id is the hash of the key bytes except for keys whose id is defined by rotation of the block number, and undecodable bytes (unknown selector, wrong length) are refused.",
  "inputs", "All key kinds of the four networks over boundary field values, all selectors, and all truncations and one-byte extensions of every encoding.",
  "Tests pin one example per key kind.",
  [API + "types/content_key/legacy_history.rs", API + "types/content_key/history.rs", API + "types/content_key/state.rs", API + "types/content_key/beacon.rs", API + "types/content_key/overlay.rs"],
  [("OverlayContentKey implementations", API + "types/content_key/")], ["key bytes, id, decode result"])
p("W04", "Accept replies carry one code per offered key, in order, in both versions",
  "The per-key code list of an accept reply decodes from its encoding to the same codes in the same order, codes outside the defined set become the unspecified code, and lists above the limit are refused. The bit-list form of the older protocol version reports exactly the accepted positions, and converting between forms keeps accepted and declined positions.",
  "inputs", "All code lists up to a length bound over the whole code alphabet, plus boundary lengths, and all byte strings up to a length bound.",
  "Tests try a handful of lists.",
  [API + "types/accept_code.rs", API + "types/portal_wire.rs"], [("AcceptCodeList", API + "types/accept_code.rs")], ["decoded codes"])
p("W05", "Two nodes always pick the highest protocol version both support",
  "The protocol version used with a peer is the highest one that appears both in our list and in the list its node record advertises, a record without a list is spoken to in the first version, and a list that does not decode or has no common version is reported as an error. The advertised list decodes from the record bytes to what was put in and both sides of a pair choose the same version.",
  "inputs configurations", "All ordered lists of versions up to a length bound on both sides, plus absent and malformed record entries.",
  "Tests check a single combination.",
  [API + "types/protocol_versions.rs", NET + "discovery.rs"], [("highest_common_protocol_version", API + "types/protocol_versions.rs")], ["chosen version"])
p("W06", "Ping and pong payload extensions decode to what was sent",
  "Every ping payload extension decodes from its wire bytes and type number to the same extension with the same fields, over-long client strings, capability lists and error messages are refused when received, and an unknown type number or undecodable payload is refused with an error. The advertised capability list and radius come back unchanged.",
  "inputs", "All extension kinds over boundary fields, all type numbers, and every truncation and one-byte extension of each encoding.",
  "Tests pin one encoding per extension.",
  [API + "types/ping_extensions/decode.rs", API + "types/ping_extensions/extensions/"], [("PingExtension::decode_ssz", API + "types/ping_extensions/decode.rs")], ["decoded extension"])
p("W07", "Stored content values decode by key kind and re-encode byte for byte",
  "For every network and key kind, a content value decodes under its own key kind to an equal value whose encoding is the original bytes. Damaged bytes are either refused without a crash or are themselves the exact encoding of what they decode to (no surplus or unread bytes), an unknown fork digest or an over-long list is refused, and a value is never decoded as a kind its key does not allow.",
  "inputs", "One or more values of every kind (built to small sizes) under every key kind, with every truncation, one-byte extension and fork-digest replacement.",
  "Tests depend on vector files, one per kind, and never cross kinds.",
  [API + "types/content_value/legacy_history.rs", API + "types/content_value/state.rs", API + "types/content_value/beacon.rs"], [("ContentValue::decode / encode", API + "types/content_value/")], ["decoded value, re-encoding"])
p("W08", "XOR distance behaves as the metric the routing rules assume",
  "Distance between two ids is their bitwise exclusive-or read as a big-endian number: zero only for equal ids, symmetric, unidirectional and satisfying the triangle inequality, and its ordering matches numeric order of the distance. The logarithmic distance is the position of the highest differing bit, and ids generated for a log distance or a set of high bits really have them.",
  "inputs", "All pairs and triples over ids built from boundary bytes at every position, and all 256 log distances.",
  "Tests check a few pairs.",
  [API + "types/distance.rs", API + "types/node_id.rs", NET + "find/iterators/"], [("XorMetric / Distance", API + "types/distance.rs")], ["distance value"])
p("W09", "Trie paths pack and unpack without losing a nibble",
  "A nibble path built from nibbles or unpacked from bytes keeps its nibbles through encoding and decoding and refuses values above fifteen or more than sixty-four nibbles. Decoding accepts only the canonical packed form (right length, parity flag and padding), so two different byte strings never give the same path.",
  "inputs", "All paths up to a length bound, boundary lengths, and all byte strings up to a length bound.",
  "Tests cover a few encodings.",
  [API + "types/state_trie/nibbles.rs"], [("Nibbles encode/decode", API + "types/state_trie/nibbles.rs")], ["decoded path"])
p("W10", "A query trace tells exactly what happened in a lookup",
  "After any sequence of answers, failures and validation results reported to it, a query trace lists for each answering node the nodes it named, when it answered relative to the start, which nodes failed and why, and which node delivered the content, and it describes every node met by its latest known record. Its JSON form reads back to the same trace.",
  "histories", "All sequences up to a length bound of answers naming any nodes, content, failures, validations and passing time over colliding nodes and records.",
  "Tests cover one fixed trace.",
  [API + "types/query_trace.rs"], [("QueryTrace", API + "types/query_trace.rs")], ["trace fields, JSON form"])
p("W11", "Protocol information in a record gives the highest common version",
  "The lowest and highest version and the chain in a node record come back from their encoding as they were put in, the encoding is the shortest and its stated length right. Fields added by later versions are ignored; anything else that is not such a list, is cut, has a number not in its shortest form or a lowest version above the highest, is refused. Two nodes on the same chain pick the highest version both ranges contain, on either side, and none if there is none or the chains differ.",
  "inputs configurations", "All pairs of boundary versions with boundary chains, every cut and extension of their encodings, all byte strings of up to five (thorough: six) bytes over the alphabet of headers, and all pairs of ranges on two chains.",
  "Tests list a few examples.",
  [API + "types/protocol_info.rs"], [("ProtocolInfo", API + "types/protocol_info.rs")], ["decoded information, bytes, chosen version"])

p("W12", "Keys, signatures and commitments are read only at their exact length",
  "A public key, signature or blob commitment is read from JSON exactly if the text is prefixed hexadecimal for exactly its number of bytes, and from SSZ bytes exactly if there are that many. Anything else is refused: nothing is padded, cut or crashes the reader. What is read holds the given bytes, is written back as the same lower-case text and the same bytes, and its tree hash root is that of the byte vector; the versioned hash of a commitment is its SHA-256 with the first byte set to one.",
  "inputs", "All lengths from zero to past the longest type, in several spellings, every odd character at every place of the text, and every other kind of JSON, for each type.",
  "Tests read well-formed values only, so a wrong length is never tried.",
  [API + "types/consensus/pubkey.rs", API + "types/consensus/signature.rs", API + "types/consensus/kzg_commitment.rs"],
  [("PubKey", API + "types/consensus/pubkey.rs"), ("BlsSignature", API + "types/consensus/signature.rs"), ("KzgCommitment", API + "types/consensus/kzg_commitment.rs")], ["value or error, text, bytes and root"])
p("W13", "Execution payloads read from JSON hold exactly the values written",
  "For every fork, the JSON form of an execution payload or payload header is read to the value whose SSZ bytes hold the written fields in order, whether numbers are texts or JSON numbers, with base fees over the whole 256-bit range in decimal, extra data up to 32 bytes, and transactions and withdrawals in order. Reading the bytes by the name of the fork gives them back, and reading the JSON the value is written as gives the same value. A missing field, an unknown field of a payload, a text of the wrong length or alphabet, a base fee that is not a decimal text below two to the 256, or a wrong kind of JSON is refused without crashing.",
  "inputs", "All combinations of shapes and boundary numbers, base fees at every power of two and one below, and every field wrong in every listed way, for each fork and both types.",
  "Tests read recorded payloads of each fork; wrong fields and boundary values are not tried.",
  [API + "types/consensus/execution_payload.rs", API + "types/consensus/serde.rs", API + "utils/serde/hex_fixed_vec.rs", API + "utils/serde/hex_var_list.rs"],
  [("ExecutionPayload, ExecutionPayloadHeader", API + "types/consensus/execution_payload.rs"), ("de_number_to_u256, de_hex_to_txs", API + "types/consensus/serde.rs")], ["value or error, SSZ bytes, JSON"])
# ---------------------------------------------------------------- validation
p("V01", "A Merkle branch verifies only for its own leaf, index, depth and root",
  "For a tree of any size and depth, the branch produced for a leaf verifies against the tree root at that leaf's index, and verification fails when any one of leaf, branch node, index, depth or root is changed or when a branch is shorter than the depth. The incremental tree, the tree rebuilt from a finalised snapshot and a naive recomputation always have the same root.",
  "inputs histories", "All trees up to a leaf and depth bound with distinct leaves, all push and finalise histories up to a bound, and all one-component changes of every proof.",
  "Quickcheck tests sample; branch changes and mixed push/finalise histories are not enumerated.",
  [VAL + "merkle/proof.rs"], [("MerkleTree, verify_merkle_proof", VAL + "merkle/proof.rs")], ["verification verdict, tree root"])
p("V02", "A header proof is accepted only when it leads to the trusted history",
  "A block header is accepted as canonical exactly when its proof is of the kind its fork requires and every link (header to beacon block to accumulator entry at the proof's slot, or header to epoch accumulator) recomputes to the trusted root. Changing the header, any proof node, the slot, the beacon root or the proof kind leads to rejection, and no proof, however malformed its slot or block number, crashes validation.",
  "inputs", "Synthetic chains covering every fork, every single-component change of each proof, slots at and beyond every table end, and all kind-versus-fork combinations.",
  "Tests use spec vectors (absent here) with one or two corruptions.",
  [VAL + "header_validator.rs", VAL + "accumulator.rs", VAL + "historical_roots_acc.rs"], [("HeaderValidator::validate_header_with_proof", VAL + "header_validator.rs")], ["validation verdict"])
p("V03", "Block bodies and receipts are accepted only against the header they belong to",
  "A block body is accepted against a header exactly when its transactions, uncles and (if the header commits to them) withdrawals hash to the header's roots; receipts are accepted exactly when they hash to the receipts root. Dropping, swapping, duplicating or altering any element, or adding or omitting the withdrawals list, leads to rejection.",
  "inputs", "All bodies and receipt lists over a small alphabet of transactions, uncles and withdrawals against all headers of the same family.",
  "Tests validate one real block per fork and one corrupted root.",
  [API + "types/execution/block_body.rs", API + "types/execution/receipts.rs"], [("validate_against_header", API + "types/execution/block_body.rs")], ["validation verdict"])
p("V04", "History content is valid only for the key it was requested under",
  "Header content is accepted under a hash or number key only when the decoded header has that hash or number and its proof is valid, and bodies and receipts only when they match the header known for the key's hash. When the header cannot be obtained, the content is rejected rather than accepted.",
  "inputs fault_sequences", "All pairs of keys and values over a small set of blocks, with every outcome of the header lookup (right header, other header, garbage, failure).",
  "Tests use one vector per key kind and no lookup failures.",
  [SUB + "legacy-history/src/validation.rs", VAL + "oracle.rs"], [("LegacyHistoryValidator", SUB + "legacy-history/src/validation.rs"), ("HeaderOracle", VAL + "oracle.rs")], ["validation result"])
p("V05", "State content is valid only with an unbroken trie proof for its key",
  "A state trie node, contract storage node or bytecode offered with a proof is accepted exactly when the proof links node by node along the key's path to the node or account the key names, using the whole path; a bare node or code is accepted exactly when its hash is the key's. The root the proof leads to is taken from the proof itself and not compared with a header. Any change to a proof node, the path, the address or the hash, a missing, surplus or reordered node, or a value of the wrong kind leads to rejection.",
  "inputs", "Small real tries with every node kind, all keys and all proof edits of the listed kinds.",
  "Tests use vector files (absent here).",
  [SUB + "state/src/validation/validator.rs", SUB + "state/src/validation/trie.rs", API + "types/state_trie/trie_traversal.rs"], [("StateValidator, validate_node_trie_proof", SUB + "state/src/validation/")], ["validation result"])
p("V06", "Walking one trie node follows the path exactly as the trie defines it",
  "Walking a trie node along a path returns the child to follow with the unused rest of the path, the stored value, or emptiness, exactly as a lookup in the full trie would. Following the results node by node from the root finds every stored key's value and reports emptiness for every absent key; a leaf or extension without nibbles of its own is reported as malformed.",
  "inputs", "All tries over small key sets with shared prefixes and all paths up to a bound.",
  "Tests check a few nodes of each kind.",
  [API + "types/state_trie/trie_traversal.rs"], [("NodeTraversal::traverse", API + "types/state_trie/trie_traversal.rs")], ["traversal result"])
p("V07", "Beacon content is accepted only if consistent with the light client's view",
  "Bootstraps older than four months or differing from the known finalized header, update batches whose count differs from the key or containing an update the light client store cannot verify, finality updates of another fork, older than the key asks for or unverifiable, optimistic updates of another fork or signature slot or unverifiable, and summaries for another epoch or with a proof not leading to the finalized state root are all rejected, as is content that does not decode. All other content is accepted; comparisons with a light client view that cannot be obtained are skipped.",
  "inputs fault_sequences", "All combinations of key fields, value fields and light-client view over a bounded alphabet, including an unavailable view.",
  "Tests are mostly ignored for lack of vectors.",
  [SUB + "beacon/src/validation.rs"], [("BeaconValidator", SUB + "beacon/src/validation.rs")], ["validation result"])
p("V08", "The chain head only moves forward",
  "Whatever order updates arrive in, the latest and finalized headers never move to an older slot and equal the newest ones received, and the set of historical summaries only ever grows. A summary query answers from the stored summaries for the slot's period and answers nothing outside them, and the caching provider never returns a summary other than the one its source holds for that slot.",
  "histories", "All sequences up to a length bound of optimistic, finality, full and summaries updates with colliding slots and forks, interleaved with queries.",
  "Only trivial paths are tested.",
  [VAL + "chain_head/mod.rs", VAL + "chain_head/store.rs", VAL + "historical_summaries_provider.rs"], [("ChainHead", VAL + "chain_head/")], ["latest, finalized header and summaries queries"])

p("V09", "Execution headers and bodies rebuilt from beacon blocks are exact",
  "For a block of any fork from Bellatrix to Electra, the rebuilt execution header has exactly the fields of that fork, its hash is the block hash of the payload, and the body holds the payload's transactions and withdrawals in order (no withdrawals before Capella). If any field that enters the block hash was changed after the hash was fixed, or a transaction does not decode, building fails.",
  "inputs", "All blocks over an alphabet of transaction lists of every type, withdrawals, extreme field values and execution requests per fork, and every single change of a sealed block, against an independent RLP and trie reference.",
  "One recorded block per fork.",
  [API + "types/execution/builders/block.rs", API + "types/execution/builders/header.rs", API + "types/consensus/execution_requests.rs"], [("ExecutionBlockBuilder, ExecutionHeaderBuilder", API + "types/execution/builders/")], ["header bytes, body, verdict"])
p("V10", "Proofs built for blocks and states are the real Merkle branches",
  "For every fork and every position of a block in its period, the built header proof is of the fork's kind, holds the branch of the block root among the period's roots, the block root, the branch of the block hash and the slot, and is accepted by the header validator that knows that period. The proof of the historical summaries built from a state is their branch in the state. A branch for any leaf of any number of leaves is that of the tree padded with zero leaves. The proof of a header before the merge is its difficulty, its branch among the records of its epoch and their number; a header that is not in its place there gets none.",
  "inputs", "Every boundary position (thorough: every seventh) of several periods per fork, states with lists of every small size, all leaf counts and indices up to a bound, epochs of every small number of records and full ones, against an independent tree.",
  "A few recorded blocks.",
  [API + "types/execution/header_with_proof.rs", VAL + "accumulator.rs", API + "types/consensus/proof.rs", API + "types/consensus/beacon_state.rs", API + "types/consensus/beacon_block.rs", API + "types/consensus/body.rs"], [("build_*_proof", API + "types/execution/header_with_proof.rs")], ["proof nodes, validator verdict"])

# ---------------------------------------------------------------- light client
p("L01", "The light client verifies an update only if every protocol rule holds",
  "An update verifies exactly when somebody signed it, its slots are ordered and not in the future, its signature period is covered by a known committee, it is relevant, its finality and committee branches lead to the attested state, and the right committee signed the attested header under the right fork domain. Breaking any one of these alone makes verification fail.",
  "inputs histories", "All combinations over boundary slots and periods, committee knowledge, branch validity and signer sets, against a reference written from the consensus specification.",
  "Tests use recorded mainnet data, a few corruptions and one period.",
  [LC + "consensus/consensus_client.rs", LC + "consensus/utils.rs"], [("verify_generic_update", LC + "consensus/consensus_client.rs")], ["verification result"])
p("L02", "Applying verified updates never moves the light client backwards",
  "For every sequence of updates the finalized and optimistic headers are replaced only by ones of a higher slot, the optimistic header is never behind the finalized one, finality only advances with at least two thirds of the committee, and committees rotate only when finality crosses into the next period, to the committee that was announced. An invalid update changes nothing, the last checkpoint is the last finalized header at an epoch boundary, and notifications are sent exactly when a header advanced.",
  "histories fault_sequences", "All sequences up to a depth bound of synthetic update, finality and optimistic messages (valid and invalid) served by a scripted provider, against a reference store.",
  "One recorded sync is tested.",
  [LC + "consensus/consensus_client.rs"], [("sync / advance / apply_generic_update", LC + "consensus/consensus_client.rs")], ["store headers and committees, watch channels"])
p("L03", "The light client starts only from the trusted checkpoint",
  "Bootstrapping succeeds exactly when the served header hashes to the configured checkpoint, its committee branch leads to that header's state, and (in strict mode) the checkpoint is young enough. On failure the client's state is not replaced.",
  "inputs configurations", "All combinations of header, committee, branch, age and strictness.",
  "Tests cover one success and two failures.",
  [LC + "consensus/consensus_client.rs"], [("bootstrap", LC + "consensus/consensus_client.rs")], ["sync result and store"])
p("L04", "A fallback checkpoint is what most healthy services agree on",
  "The checkpoint taken from the list of checkpoint services is the most common block root that healthy services report for the latest epoch any of them knows; services that are unhealthy, silent, unintelligible or without a root do not count, and without any usable answer there is an error. A single service's checkpoint is the root of the first slot it returns. Each service is asked at its slots address, trailing slashes or not, and no answer causes a crash.",
  "inputs fault_sequences", "All combinations of answers of three (thorough: four) services over ten answers with each service unhealthy or none, and all lists of services over an alphabet.",
  "Tests need the network and are ignored.",
  [LC + "config/checkpoints.rs"], [("CheckpointFallback", LC + "config/checkpoints.rs")], ["checkpoint, requests"])
p("L05", "The light client starts from the right checkpoint, falling back only if allowed",
  "A light client starts from the checkpoint given explicitly, else the configured one, else the stored one if it is 32 bytes, else the default, and refuses a node of another chain. Only if the checkpoint is too old in strict mode does it try the checkpoint of the fallback service and then, only when allowed, of the external list; it makes no other web request. Shutting down stores the last finalized epoch boundary, which the next start uses, and a failed start leaves the store alone. A head more than ten slots behind the clock is not given out.",
  "histories configurations fault_sequences", "All combinations of explicit, configured and stored checkpoints, strictness, fallback services and their answers and chains, all sequences of saves and damage to the stored file up to a length bound.",
  "No test covers the fallbacks or the store.",
  [LC + "client.rs", LC + "node.rs", LC + "database.rs"], [("Client, ClientBuilder, FileDB", LC + "client.rs")], ["checkpoints asked for, web requests, start result, stored file"])
p("L06", "Light client data arrives unchanged from the network or a beacon node",
  "Each request for a bootstrap, range of updates, finality update or optimistic update asks the portal network for exactly the content key of that item (the optimistic one for the current slot) or the beacon node at exactly that item's address (at most 128 updates at once). The Electra item answered is handed on unchanged, and items of other forks, other kinds or damaged ones, missing answers and closed channels give an error, never a crash.",
  "inputs fault_sequences", "All requests over a bounded alphabet of periods, counts and times with all kinds of answers.",
  "No test covers the portal provider.",
  [LC + "consensus/rpc/portal_rpc.rs", LC + "consensus/rpc/nimbus_rpc.rs"], [("ConsensusRpc of PortalRpc and NimbusRpc", LC + "consensus/rpc/")], ["content keys and addresses asked for, item handed on"])
p("L07", "Light client signatures are judged under the fork of the signed block",
  "The fork version of a slot is that of the last fork whose epoch has begun, for every slot of every calendar, and the calendars, chain numbers and start times of the known chains are the announced ones. A sync committee signs, in its slot, the block of the slot before; so an update, finality update or optimistic update is accepted exactly if it was signed in the domain of the fork of the slot before its signature slot, also in the first slot of a fork.",
  "inputs configurations", "All slots around every fork of both known chains, all slots of all calendars over a few epochs, and all three kinds of update signed in every domain at slots around a fork, sent to a syncing client.",
  "Recorded updates lie far from any fork.",
  [LC + "config/client_config.rs", LC + "config/networks.rs", LC + "consensus/consensus_client.rs"], [("Config::fork_version", LC + "config/client_config.rs"), ("ConsensusLightClient::verify_*update", LC + "consensus/consensus_client.rs")], ["fork version, result of a sync"])

# ---------------------------------------------------------------- storage
p("S01", "Stored content is found again, byte for byte, until it is evicted",
  "After any sequence of inserts, deletes and prunes, a lookup returns exactly the bytes stored under a key that is present and nothing for any other key, and the presence, key and store-or-not answers agree with it. Content outside the radius is refused and content already present is reported as such.",
  "histories", "All operation sequences up to a length bound over keys colliding in distance, with values of several sizes, on the real database.",
  "Tests run a few hand-written sequences.",
  [STO + "versioned/id_indexed_v1/store.rs", STO + "lib.rs", SUB + "legacy-history/src/storage.rs"], [("IdIndexedV1Store", STO + "versioned/id_indexed_v1/store.rs")], ["lookup results"])
p("S02", "The store stays within capacity by evicting the farthest content first",
  "After every insert and every reopening the stored size is within the configured capacity. When it would not be, the store evicts the items farthest from the node (distances are compared by their leading 32 bits) until the estimated number of average-sized items that fit in 95 percent of the capacity remain, hands the ones evicted by an insert back to the caller, and its radius becomes the distance of the farthest item it keeps. Inserts that evict nothing and deletes leave the radius alone; a reopened store takes the farthest distance when it is above 95 percent of its capacity, zero when its capacity is zero and the configured maximum otherwise. Data of another node is refused on opening, and the radius never exceeds the configured maximum, also after reopening with a lower one.",
  "histories configurations", "All operation sequences up to a length bound over items of different sizes and distances and several capacities (including zero) and maximum radii.",
  "Property is spot-checked for a few sizes.",
  [STO + "versioned/id_indexed_v1/store.rs", STO + "versioned/id_indexed_v1/config.rs"], [("prune / set_radius", STO + "versioned/id_indexed_v1/store.rs")], ["radius, stored items, evicted items"])
p("S03", "The usage counters always equal what is in the database",
  "After every operation, whether it succeeded or failed, the tracked entry count and total size equal the number and total size of the items actually stored, and reopening the store computes the same numbers. Inserting content that is already there changes neither.",
  "histories", "All operation sequences up to a length bound including repeated inserts of the same key with the same or another value.",
  "Tests never insert a key twice.",
  [STO + "versioned/usage_stats.rs", STO + "versioned/id_indexed_v1/store.rs"], [("UsageStats", STO + "versioned/usage_stats.rs")], ["usage stats versus database"])
p("S04", "A crash or database failure at any point leaves the store usable",
  "If any single database statement fails, or the process stops after any statement, the reopened store holds only whole items that were inserted and not deleted, lookups agree with its counters, and its radius and capacity rules hold again after the next insert. A failing operation reports an error or succeeds, and never silently loses an item that it reported as stored.",
  "crash_points histories fault_sequences", "Every statement boundary of every operation sequence up to a length bound, with one-shot and persistent failures, followed by reopening.",
  "No test injects a failure.",
  [STO + "versioned/id_indexed_v1/store.rs", STO + "versioned/utils.rs"], [("per-statement database use", STO + "versioned/id_indexed_v1/store.rs")], ["reopened store"])
p("S05", "Ephemeral content is found by key until it is deleted",
  "The ephemeral header store returns exactly the bytes first stored under a key until that key is deleted, says so in its presence answers, and never touches other keys. Its counters match the database after every operation, also when a database statement fails, and storing content that is already there changes nothing.",
  "histories", "All operation sequences up to a length bound over a few keys, values and slots, with at most one failing statement.",
  "Tests cover single operations.",
  [STO + "versioned/ephemeral_v1/store.rs"], [("EphemeralV1Store", STO + "versioned/ephemeral_v1/store.rs")], ["lookup results, purge effect"])
p("S06", "Paging through local content lists every stored key exactly once",
  "For every page size, walking the pages of the local content listing visits each stored key exactly once and nothing else, and every page reports the true total. Pages beyond the end are empty.",
  "inputs histories", "All stores up to a size bound and all offset and limit pairs around the size.",
  "Tests check one store with a few offsets.",
  [STO + "versioned/id_indexed_v1/store.rs"], [("paginate", STO + "versioned/id_indexed_v1/store.rs")], ["listed keys and total"])
p("S07", "The storage budget is shared out without exceeding it",
  "Splitting the configured capacity among the enabled subnetworks gives each weighted one (state and legacy history) its share, gives nothing to the others, and the shares never add up to more than the total. Explicit per-network capacities are used as given.",
  "configurations", "All subsets of subnetworks, all capacity forms and boundary capacity values.",
  "Tests check five combinations.",
  [STO + "config.rs"], [("PortalStorageConfigFactory", STO + "config.rs")], ["per-network capacity"])
p("S08", "Opening a store applies its schema version exactly once",
  "Opening a store for a content type records its schema version the first time, reuses the existing data when the version matches and refuses to touch data written by an unknown or different version. Opening never disturbs other content types in the same database, and a failure part-way leaves a database that opens correctly afterwards.",
  "histories crash_points", "All open and reopen sequences over content types and recorded versions up to a bound, with a failure at every statement.",
  "Tests open once per store kind.",
  [STO + "versioned/utils.rs", STO + "versioned/store.rs"], [("create_store", STO + "versioned/utils.rs")], ["recorded version and content after opening"])
p("S09", "The beacon store answers range and recency queries correctly",
  "A bootstrap is found by its block root; an update range is returned only when every period in it is stored, in order; finality, optimistic and summaries queries return the held item exactly when it is at least as recent as requested. Only newer items replace older ones, pruning removes only bootstraps older than the window, and reopening restores persisted items and the summaries they imply. A range of more than 128 periods, or one that runs past the last period, is refused at once.",
  "histories", "All store, query, prune and reopen sequences up to a length bound over items with adjacent periods, slots and epochs.",
  "Tests depend on vector files and single puts.",
  [SUB + "beacon/src/storage.rs", STO + "sql.rs"], [("BeaconStorage", SUB + "beacon/src/storage.rs")], ["get results, should-store answers"])
p("S10", "State storage keeps only the proven node or code",
  "Storing a state item keeps exactly the last proof node or the bytecode, retrievable in the retrieval form under its key, and only if it hashes to the key. A value of another kind, an empty proof or a hash mismatch is refused and leaves the store unchanged. An item is stored, and wanted, exactly if its distance is at most the radius.",
  "inputs histories", "All key kinds times all value kinds times matching and mismatching hashes over a small trie.",
  "Tests use one example per kind.",
  [SUB + "state/src/storage.rs"], [("StateStorage::put", SUB + "state/src/storage.rs")], ["stored value or error"])

# ---------------------------------------------------------------- overlay network
p("Q01", "A node lookup ends with the closest responsive nodes it was told of",
  "In every order of replies, failures, late replies and timeouts, a node lookup asks each node it was told of at most once and closest first, never has more than the configured number of requests waiting on live peers (a stalled lookup: than the number of results wanted), goes on asking while it has room, and ends. It ends only when no closer known node is unasked or being waited for, or everybody was asked; its result is the closest nodes that answered, sorted by distance and no more than wanted. Replies nobody waits for change nothing.",
  "schedules fault_sequences", "All interleavings of requests, successes (with every subset of a small peer set), failures, late replies and timeouts up to a bound, over several peer graphs and parallelism settings.",
  "Tests run random graphs and one fixed order.",
  [NET + "find/iterators/findnodes.rs", NET + "find/iterators/query.rs"], [("FindNodeQuery", NET + "find/iterators/findnodes.rs")], ["next action, final result"])
p("Q02", "A content lookup returns validated content or knows everyone failed",
  "In every order of replies, a content lookup asks each node it was told of at most once and closest first, respects the limit on waiting requests and goes on asking while it has room. It ends with content that a peer supplied and that was reported valid, naming that peer, or without content only after every known node answered, failed or ran out of time and all supplied content was judged. Content is judged one piece at a time; content reported invalid is never returned and the lookup carries on with the other peers. With content it names the nodes still being asked and, for passing it on, the closest nodes that answered without it.",
  "schedules fault_sequences", "All interleavings of node replies, content replies, validation verdicts, failures and timeouts up to a bound.",
  "Tests cover a handful of orders.",
  [NET + "find/iterators/findcontent.rs"], [("FindContentQuery", NET + "find/iterators/findcontent.rs")], ["next action, final result"])
p("Q03", "The query pool drives every query to an end and times out slow ones",
  "Every query added to the pool is eventually reported finished or timed out exactly once, a query is timed out exactly when its time is over, and its identifier is never reused while it runs. Polling reports a waiting request only for a live query and reports idle only when the pool is empty; it reports a query finished only when that query has ended.",
  "schedules histories", "All sequences of add, poll, reply and clock-advance events up to a bound on the real pool with an owned clock.",
  "No direct tests.",
  [NET + "find/query_pool.rs"], [("QueryPool", NET + "find/query_pool.rs")], ["poll results"])
p("Q04", "Every overlay lookup request gets exactly one answer",
  "A find-nodes or find-content request to the overlay service is answered exactly once whatever the peers do: answer, stay silent, send malformed or invalid data, or offer a transfer that fails. Content given as answer passed validation, and a silent or misbehaving peer does not prevent content held by another asked peer from being found before the timeout. No node is asked twice or without having been named. Content we hold is found without asking; a connected node of the routing table is found without asking; a node lookup returns exactly the nodes that answered. Each node is asked for as many log distances as configured, all different, and those nearest to its own distance from the target.",
  "fault_sequences schedules", "All assignments of behaviours to a small set of peers, on the real overlay service with a scripted transport and virtual time.",
  "Tests exercise single functions of the service.",
  [NET + "overlay/service/find_content.rs", NET + "overlay/service/find_nodes.rs", NET + "overlay/service/manager.rs"], [("OverlayService query handling", NET + "overlay/service/")], ["command responses"])
p("Q05", "A record lookup returns a record of exactly the wanted node",
  "Looking up the record of a node returns our own record for ourselves; otherwise a record of exactly that node which someone really gave us, at least as new as the one in the routing table and the newest of its own records that the node itself answers with, whatever other records peers send along; for a node in the routing table the lookup never fails.",
  "inputs fault_sequences", "All standings of the wanted node in the routing table, all its answers from a set of honest, empty, mixed and foreign ones, and all behaviours of the other peers, on the real overlay service.",
  "Not covered by tests.",
  [NET + "overlay/protocol.rs"], [("lookup_enr", NET + "overlay/protocol.rs")], ["returned record"])
p("O01", "Only one inbound transfer per content item is in progress at a time",
  "The accept queue takes a content key only if no live transfer of that key is in progress, remembers the other peers that offer the key meanwhile, and when the transfer fails hands out one of these, never the failed one, and releases the key. An entry is also released when it is removed and when 120 seconds have passed since it was taken, however often the key is offered meanwhile.",
  "histories schedules", "All sequences of add, remove, fallback and clock-advance operations over a few keys and peers up to a length bound with virtual time.",
  "Tests cover single steps.",
  [NET + "accept_queue.rs"], [("AcceptQueue", NET + "accept_queue.rs")], ["add result, fallback peer"])
p("O02", "An offer is answered with the right code for every key",
  "The reply to an offer has one code per offered key in the offered order: accepted only for content we want, do not have, are not already receiving and have transfer capacity for; otherwise the code naming the reason. A transfer is opened exactly when something was accepted, and the payload is matched to the accepted keys in order.",
  "inputs histories fault_sequences", "All offers of up to a few keys over keys in every storage condition, with and without transfer permits, for both protocol versions.",
  "Tests call one path.",
  [NET + "overlay/service/offer.rs"], [("handle_offer", NET + "overlay/service/offer.rs")], ["accept reply, stored content"])
p("O03", "Concurrent transfers never exceed the limit and always give back their slot",
  "At no time are more inbound transfers of accepted offers in progress than the configured limit, nor more outbound transfers that serve content requests or pass received content on (a pending offer of the latter counts). Without a free slot an offer is answered as rate limited and a content request with closer peers. Every slot is released when its transfer or offer ends, however it ends, so that the full limit is available again.",
  "schedules fault_sequences", "All histories of requests, offers, received items, answers to offers and ends of transfers (finished, refused, broken, cut, timed out) up to a length bound with limits of one and two, on the real overlay service with scripted peers and streams.",
  "Tests check a single acquire.",
  [NET + "utp/controller.rs", NET + "utp/timed_semaphore.rs", NET + "overlay/service/find_content.rs", NET + "overlay/service/offer.rs", NET + "put_content.rs"], [("UtpController permits", NET + "utp/controller.rs")], ["available permits, transfer results"])
p("O04", "A content request is answered with the content or with closer peers",
  "A find-content request for content we hold is answered with that content, inline if it fits one packet and otherwise through an announced transfer carrying exactly those bytes; for content we lack, or when no transfer slot is free, it is answered with the closest known peers (none for content that is not distributed by distance), never including the requester, in a reply that fits a packet. A transfer is announced only to a peer with a known record and a protocol version in common, in the form of that version. Malformed keys are refused without a crash.",
  "inputs configurations", "All content sizes around the packet limit, all table fillings up to a bound, requester in or out of the table, permits available or not, both protocol versions.",
  "Tests check one size.",
  [NET + "overlay/service/find_content.rs", NET + "types/node.rs"], [("handle_find_content", NET + "overlay/service/find_content.rs")], ["response message"])
p("O05", "A nodes reply lists the requested distances only, within one packet",
  "The reply to a find-nodes request contains only nodes at the requested log distances (ourselves exactly at distance zero), never the requester, without duplicates, and always fits one packet. Nodes are left out only for lack of space.",
  "inputs configurations", "All subsets of a small set of distances over routing tables of bounded size, with requester inside and outside.",
  "Tests check two tables.",
  [NET + "overlay/service/find_nodes.rs", NET + "types/kbucket.rs"], [("handle_find_nodes", NET + "overlay/service/find_nodes.rs")], ["response message"])
p("O06", "The routing table reflects the freshest confirmed record of each peer",
  "A peer appears in the table at most once and never ourselves. A record learned from other peers replaces the known one only if its sequence number is higher and leaves radius and connection as they are; an unknown peer enters as disconnected. A peer waiting for a place in a full bucket is updated in the same way. Disconnected peers are never handed out: queries by log distance, for the closest peers and for content interest return exactly the qualifying connected peers, in order of distance where one is asked for.",
  "histories", "All sequences up to a length bound of insert, update, disconnect and query operations over a few colliding nodes.",
  "Tests cover single operations.",
  [NET + "types/kbucket.rs", NET + "overlay/service/utils.rs"], [("SharedKBucketsTable", NET + "types/kbucket.rs")], ["table queries"])
p("O07", "Gossip goes only to interested peers and within limits",
  "Content is offered only to connected peers whose radius covers it (to up to eight connected peers when radius does not apply), at most once per peer. Up to eight interested peers are all chosen; of more, the four closest and four others. Each recipient is offered only items it was chosen for, with their own values, in the order given and at most 64; an offer that gets no transfer slot is not sent.",
  "inputs configurations schedules", "All tables of a few peers times content sets times every outcome of the random choice, on the real selection code with an owned random source.",
  "Random choice makes the tests inspect counts only.",
  [NET + "gossip/"], [("propagate / gossip recipients", NET + "gossip/")], ["offers sent"])
p("O08", "Received content is stored and passed on only after validation",
  "Content received through an accepted offer is stored and passed on only if it is canonically valid for its key; invalid content changes nothing and does not stop the valid items of the same offer. Content that is not received, or is invalid, is fetched from a fallback peer when one offered it meanwhile. Afterwards, however it ended, the key can be accepted again. Items pushed out of the store by a new one are passed on if so configured.",
  "inputs fault_sequences", "All batches of up to a few items with every validity pattern, transfer outcome and fallback behaviour.",
  "Not covered by tests.",
  [NET + "overlay/service/offer.rs", NET + "put_content.rs"], [("validate_and_store_content", NET + "overlay/service/offer.rs")], ["store content, gossip offers"])
p("O09", "Pings are answered with the right extension and update the peer's radius",
  "A ping with a supported extension is answered with the extension the protocol prescribes carrying our current data, an unsupported one with the error code for that. The stored radius and capabilities of a known peer follow the latest valid ping or pong, a payload that is malformed or of an unsupported type changes nothing, and a record sequence number above the stored one makes us ask the peer for its record.",
  "inputs histories", "All sequences up to a bound of pings and pongs with every extension type, payload validity and sequence number.",
  "Tests check one extension each.",
  [NET + "overlay/service/ping/mod.rs", NET + "overlay/ping_extensions.rs"], [("ping handling", NET + "overlay/service/ping/")], ["pong reply, routing table entry"])

p("O10", "An accepted offer is followed by exactly the accepted content",
  "After an offer of ours is answered, exactly the accepted items are sent, in offered order, over one transfer opened with the connection id the peer gave; if nothing is accepted, the peer has no protocol version in common or the answer is unreadable or missing, no transfer is opened. The caller learns the codes the peer gave, a traced offer learns that it failed if the transfer did, and every call ends.",
  "inputs fault_sequences", "All offers of up to a few items, all code lists including too short and too long ones, all kinds of bad answers, all protocol versions and all ways a transfer ends.",
  "Tests cover no complete offer.",
  [NET + "overlay/service/offer.rs", NET + "overlay/protocol.rs", NET + "utp/controller.rs", API + "types/accept_code.rs"], [("process_accept", NET + "overlay/service/offer.rs"), ("send_offer", NET + "overlay/protocol.rs")], ["bytes sent, returned trace"])
p("O11", "Content asked from one peer is returned only if it is valid",
  "Asking a single peer for content returns inline or transferred content only if it is valid for the key, says truthfully whether it was transferred, returns the peer's list of other peers unchanged, and otherwise fails; a transfer is read in the form of the protocol version in common. Every call ends, and a request with a malformed key or to a peer without a common version is not sent.",
  "inputs fault_sequences", "All protocol versions, answers, content validities and ways the transfer ends.",
  "Not covered by tests.",
  [NET + "overlay/protocol.rs", NET + "utils/portal_wire.rs"], [("send_find_content", NET + "overlay/protocol.rs")], ["returned content"])
p("O12", "A peer counts as connected from its last sign of life to its next failure",
  "A peer of the routing table is handed out to others exactly if the last thing it did was to ask or answer us, not to fail a request of ours (by silence, an error or an unreadable answer). A peer named by others enters as not connected. A stranger enters as connected by answering us, or by asking us if its record is known from a session. A peer the service itself adds, or that answers again after a failure, is pinged within the ping interval.",
  "histories fault_sequences", "All histories up to a length bound of requests, answers, failures, introductions and passing time over two peers with and without session.",
  "Tests call single functions.",
  [NET + "overlay/service/manager.rs", NET + "types/kbucket.rs"], [("register_node_activity, process_response, process_request_failure", NET + "overlay/service/manager.rs")], ["nodes reply, pings sent"])

# ---------------------------------------------------------------- archive files
p("E01", "Archive entries survive writing and reading and bad files are refused",
  "Any sequence of entries written to an archive, in memory or streamed, reads back as the same sequence. A file that is cut inside an entry, has a non-zero reserved field or announces more bytes than remain is refused with an error, never with a crash; a file cut between two entries reads as the entries before the cut.",
  "inputs crash_points", "All entry sequences up to a bound over types and lengths, every truncation point and every one-byte change of headers.",
  "Tests use four literals.",
  [E2 + "e2store/types.rs", E2 + "e2store/memory.rs", E2 + "e2store/stream.rs"], [("E2StoreMemory / streams", E2 + "e2store/")], ["entries read or error"])
p("E02", "History archives return the blocks that were written, in order",
  "Every block written to a pre-merge history archive (era1), header archive (e2hs) or beacon archive (era) is read back equal, in order and in its fork, and writing it again gives the same bytes; the header archive writer finishes only a full archive of 8192 blocks, with index entries pointing at the written blocks and a file name ending in the last block's hash. Reading a whole archive with wrong entry types, missing, extra or misplaced entries, undecodable payloads or an index that does not match the number of blocks is refused with an error, and reading it block by block never yields a block that was not written at that place. A block belongs to the archive numbered by its number divided by 8192.",
  "inputs", "Full-size archives of synthetic and shipped blocks, every kind of omission, repetition, swap, move, type change, cut and index change at entries of every role, all arrangements of four entries as a block.",
  "Tests re-read two shipped files.",
  [E2 + "era1.rs", E2 + "e2hs.rs", E2 + "era.rs"], [("Era1 / E2HS / Era", E2)], ["blocks read or error"])
p("E03", "A state snapshot archive returns every account and slot written",
  "Accounts, bytecode and storage batches written to a state snapshot archive are read back equal and in order, together with the header. The writer takes an account only when no batch of the previous one is owed, and a batch only when one is owed; only the last batch of an account may be less than full. A file cut anywhere but between two accounts, or whose entries are in another order or of another kind, is refused: reading never ends as if complete and never yields an item that was not written.",
  "inputs crash_points", "All append sequences up to a bound, every cut at every byte of all small snapshots and all sequences of entries up to a bound.",
  "Tests write one snapshot.",
  [E2 + "e2ss.rs"], [("E2SSReader / E2SSWriter", E2 + "e2ss.rs")], ["items read"])
p("E04", "Lists of archives are taken only complete, each epoch with its own address",
  "The list of beacon archives (era) or header archives (e2hs) is accepted only if it is not empty and has every epoch from 0 to its last one; the list of pre-merge archives (era1) only if it has exactly its 1897 epochs; a list of state snapshots may have gaps or be empty. Each epoch then has the address its link stands for on the page, links to anything else are ignored, and the shuffled list of pre-merge archives has every archive once. A page that cannot be had is an error.",
  "inputs", "All subsets of a set of epochs in every order and form of link on each of the four pages, each kind of missing, extra and foreign link in a full list.",
  "No tests without the network.",
  [E2 + "utils.rs"], [("get_*_files over scripted pages", E2 + "utils.rs")], ["epochs and addresses or error, pages asked for"])

# ---------------------------------------------------------------- archive writer
WR = "bin/e2hs-writer/src/subcommands/"
p("G01", "The archive writer continues after the last file and uploads files whole",
  "The writer at the head of the chain starts with the file after the last one its bucket lists, over all pages of the listing; if a page cannot be read, names no next page although there is one, or the last name has no index in it, it does not start. A file is uploaded in as few parts of at most 100 MB as it needs, numbered in order, that put together are the file; if any request of the upload fails, no further request is made and the upload is never completed. A file is removed locally once it is uploaded.",
  "fault_sequences inputs", "All listings of up to three (thorough: four) pages with up to two names each and a failure at every page; lengths around the limits with a failure at every request.",
  "No tests.",
  [WR + "head_generator/s3_bucket.rs", WR + "head_generator/mod.rs"], [("HeadGenerator over a scripted bucket", WR + "head_generator/")], ["requests to the bucket, files completed"])
p("G02", "The writer at the head uploads each file once it is provable, never before",
  "Files are made and uploaded in order, each when all its blocks lie before the first block of the latest finalized period of 8192 slots, and within an epoch of that. A file has exactly its blocks with their headers, bodies, receipts and the proofs that belong to them, whatever slots are skipped (up to five in a row) and wherever a period ends. A block whose receipts, number, hash or place among the roots of its period is wrong, or that cannot be had, stops the writer without uploading its file or a later one. With 648000 or more blocks to catch up with it does not start. If the provider has no state for the first slot of a period because the slot has no block, the file may fail but never be wrong.",
  "histories fault_sequences inputs", "All placings of up to six (thorough: nine) blocks around the end of a period with a gap at each place, times at which the next period becomes final, and each of six faults at each of eight blocks.",
  "No tests.",
  [WR + "head_generator/mod.rs", WR + "head_generator/e2hs_builder.rs", WR + "full_block.rs"], [("HeadGenerator over scripted providers", WR + "head_generator/")], ["files uploaded, with their blocks and times"])
p("G03", "A single file is made of exactly its blocks, found in at most three archives",
  "For a file after Capella whose index is not above that of the latest block, the writer finds the beacon archive with its first block and reads on until it has all blocks; the finished file has exactly these blocks, with headers, bodies, receipts and valid proofs, also across changes of fork. If blocks are missing, more than three archives would be needed, receipts do not belong to the block, a block is not among the roots of its era, the summaries do not cover it, or an archive is cut or cannot be had, the result is an error and no file is finished.",
  "inputs fault_sequences", "All spreadings of the blocks over three to five consecutive archives in the bound, at fork changes, with the file starting at each place and the archives at each distance from the end of the list; each of seven faults at each block.",
  "No tests without the network.",
  [WR + "single_generator/e2hs_builder.rs", WR + "single_generator/era_binary_search.rs", WR + "single_generator/provider.rs", WR + "full_block.rs"], [("single_generator over scripted archives and providers", WR + "single_generator/")], ["finished file and its blocks or error"])

# ---------------------------------------------------------------- bridge
p("B03", "The bridge drops a peer only after ten failed checks in a row",
  "A known peer is forgotten exactly when its last ten liveness checks all failed; a success at any point resets that, and a forgotten peer that is found again starts anew. A peer is due for its next check five minutes after the previous one and is checked once per due time, no matter how often lookups find it again; a known record is never replaced by an older one. Each peer has a count and times of its own.",
  "histories schedules", "All sequences of passed and failed checks up to a bound over one and two peers in virtual time, with lookups of several durations that keep finding the peer.",
  "No tests.",
  [BR + "census/peer.rs", BR + "census/peers.rs", BR + "census/network.rs"], [("Census over scripted networks", BR + "census/")], ["known peers, times of checks"])
p("B04", "Bridge peer choice respects interest, weight and limit",
  "Peers are selected only if interested in the content, never twice, and never more than the limit; if no more peers qualify than the limit allows, all of them are chosen. A peer's weight is 200 plus the weights of its events of the last 15 minutes (at most the last 255 offers and 10 checks): a passed check or accepted offer counts 5, already stored 0, rate limited or transfer in progress -2, declined or unspecified -5, not within radius, a failed check or a failed offer -10. It is clamped to 0..400; a peer of weight zero is never chosen and a greater weight is chosen more often. Results count only for the peer and network they belong to. The census starts once, only on networks it supports.",
  "histories inputs schedules", "All event histories up to a bound over every event kind and age around the window, the account brought exactly to zero after each; all small populations, limits and kinds of keys over a set of seeds of the random selection.",
  "No tests.",
  [BR + "census/scoring.rs", BR + "census/mod.rs"], [("Census over scripted networks", BR + "census/")], ["chosen peers"])
p("B05", "The bridge judges each answer to a liveness check correctly",
  "A liveness check passes exactly when the peer answers with the capabilities extension and, if it announces a newer record, hands over a record of its own. Then the record, client and radius are taken over and decide what the peer is offered (content at distance up to and including the radius, or not affected by radius). Anything else counts as a failed check of a known peer, leaves what is known unchanged, is repeated five minutes later, and does not make a stranger known. Of several records found for a node the newest is used.",
  "histories inputs", "All sequences up to a bound of sixteen kinds of answers, for strangers and known peers, in each network.",
  "No tests.",
  [BR + "census/network.rs", BR + "census/peer.rs"], [("Census over scripted networks", BR + "census/")], ["known peers, requests made, peers chosen per key"])

p("B06", "The beacon bridge offers each new piece of light client data once",
  "From four seconds into each slot of 12 s, the beacon bridge asks its provider and offers to the chosen peers: every optimistic update it gets; a finality update whose finalized slot is greater than any offered before; the update of the current period, once per period, if its finalized header lies in that period; the bootstrap of a finalized block whose root differs from that of the last one offered, fetched 24 s after the root was seen, with no second bootstrap started meanwhile; the historical summaries of a finalized state with another root than the last one offered, with their proof, and no second download meanwhile. Key and value belong together. A request that fails offers nothing and is made again in the next slot. The result of each offer (failed if it takes 120 s or ends in an error) counts for the peer that gave it.",
  "histories failures", "All sequences up to a bound of what the provider has and where it fails, slot by slot, around a change of period.",
  "No tests of the bridge itself.",
  [BR + "bridge/beacon.rs", BR + "utils.rs"], [("BeaconBridge over scripted providers and peers", BR + "bridge/beacon.rs")], ["time, key, value and receiver of each offer"])
p("B07", "The archive bridge offers each valid block of its range once and in order",
  "For the archives listed, the bridge offers every block inside its range (both ends included, an open end meaning the last archive) whose body and receipts match its header and whose proof, if from before Capella, is valid, and no other block. Header by hash, header by number, body and receipts are each offered once to each chosen peer; the header by number when all offers of the header by hash have ended, body and receipts 2 s after that. No more offers than the limit are under way at once; nothing else waits. An offer that takes 120 s or ends in an error counts as failed, each result counts for the peer that gave it, and the bridge ends once all offers have. A range is read from a text of two numbers joined by a dash, of which the second may be missing.",
  "inputs histories", "All ranges over block numbers around the boundaries of three archives, all sequences up to a bound of ten kinds of blocks, all combinations of limits, numbers of peers and their speeds per kind of content; all texts up to a length over eight symbols.",
  "test_block_range: two texts.",
  [BR + "bridge/e2hs.rs", "crates/e2store/src/utils.rs"], [("E2HSBridge over scripted archives and peers", BR + "bridge/e2hs.rs")], ["time, key, value, receiver and end of each offer, end of the bridge"])

p("B08", "The bridge at the head of the chain offers attested and finalized blocks",
  "On a head event the bridge downloads the head and its 12 predecessors (a second provider is asked if the first fails, null receipts are asked for again, five times in all), except those it already knows, up to the first block that cannot be had; receipts that do not belong to the block count as a failure. On an optimistic update it offers, if it knows the attested block and its 12 predecessors, their headers as one series to the chosen peers and, 2 s after all these offers have ended, each body and each receipts list once to each peer chosen for it; otherwise nothing. On a finalized checkpoint whose epoch is a multiple of 256 and whose block it knows, it offers the known line of predecessors of that block by hash and by number with a valid proof, and forgets the blocks before that epoch; on any other, nothing. Other events and garbage change nothing. Blocks at the head and proven headers each keep to their own limit of offers under way. An offer that takes 120 s or ends in an error counts as failed, and results of bodies and receipts count for the peer that gave them.",
  "histories failures inputs", "All histories up to a bound of heads, updates and checkpoints over a small tree of blocks with competing branches, one after the other and all at once; each failure and each wrong answer at each block; gaps; limits and speeds of peers.",
  "No tests of the bridge itself.",
  [BR + "bridge/ephemeral_history/mod.rs", BR + "bridge/ephemeral_history/gossiper.rs", BR + "bridge/ephemeral_history/ephemeral_bundle.rs"], [("EphemeralHistoryBridge over scripted providers, events and peers", BR + "bridge/ephemeral_history/")], ["downloads; time, key, value and receiver of each offer"])

p("B09", "The state bridge offers each new trie node, contract and storage node once",
  "In block-range mode the bridge runs the blocks before the range and offers, for each block of the range, exactly one content for each account trie node, contract code and storage node the block adds to the state, to each peer interested in it, with the key, the proof and the block hash that belong to it; it also may offer again what the block rewrote unchanged, but nothing of the code or storage of accounts whose code and storage the block does not write. In snapshot mode it offers so the whole state of the snapshot; a snapshot already imported is not downloaded again, any other state is replaced, and if the snapshot is missing or broken nothing is offered. Bridges 1/n to n/n offer disjoint parts that together are the whole. Offers under way never exceed the limit, and the bridge ends only when all its offers have ended. Ranges past the merge and other modes are refused.",
  "histories failures inputs", "All sequences of three blocks out of ten kinds (creation, writes, clearing, destruction, re-creation, transient contracts) with each number of them run beforehand; one to three bridges; limits 1 to 5 with four speeds and one to three peers; all histories of two launches with five kinds of snapshots; the real first state; all identifiers up to four characters.",
  "No tests; needs execution, archives and peers together.",
  [BR + "bridge/state.rs", BR + "cli.rs"], [("StateBridge over scripted archives and peers, real execution and database", BR + "bridge/state.rs")], ["time, key, value, receiver and end of each offer, end of the bridge, files asked for"])

RPC = "crates/ethereum-rpc-client/src/"
p("R01", "A consensus provider's data is used only if well-formed, else the second's",
  "Each request goes to the documented path at the first provider, and to the same path at the second exactly if the first gives no usable answer in time (60 s for blocks and states, otherwise the configured time): an answer is usable if its content type is JSON (for a list, each element with data) or, except for lists, SSZ and it decodes to the type asked for. The result is that of the provider whose answer is used; without any, an error. Looking for the first block from a slot on, for that of the latest finalized period (8192 slots), or for the state at the start of the next period, tries up to six consecutive slots; a state of an earlier slot counts as skipped, one of a later slot is an error. The event stream names the topics asked for and yields exactly the well-formed events of the four known topics, in order, whatever comes between. Credentials are sent to hosts of pandaops.io and to no other.",
  "inputs histories failures", "All requests with fourteen kinds of answers by each of two providers; all sequences of skipped slots; all event sequences up to a bound; pairs of hosts.",
  "No tests; needs two providers.",
  [RPC + "consensus/mod.rs", RPC + "consensus/event.rs", RPC + "consensus/rpc_types.rs", RPC + "http_client.rs"], [("ConsensusApi over scripted HTTP providers", RPC + "consensus/mod.rs")], ["requests made, value returned"])
p("R02", "An execution provider's blocks and receipts are matched with what was asked",
  "Each request goes to the first provider and, exactly if that gives no JSON answer in time, 5 s later to the second. A block is returned as given if it is from after the merge; its body is offered only if transactions and withdrawals match the header. Receipts that are null are asked for again after 1 s, five times in all; an error or anything else without a result fails. Receipts of a range of blocks are asked for in batches of at most ten with distinct ids, and the answers are assigned by id whatever their order; if one is missing, null or an error, the whole request fails. Block numbers are sent in hexadecimal without leading zeros. Credentials are sent to hosts of pandaops.io and to no other.",
  "inputs histories failures", "All requests with eight kinds of answers by each of two providers, all sequences of them up to the retry limit, blocks that match their header or not in seven ways, ranges of 0 to 31 blocks with each change of each answer of a batch.",
  "No tests; needs two providers.",
  [RPC + "execution.rs", RPC + "http_client.rs"], [("ExecutionApi over scripted HTTP providers", RPC + "execution.rs")], ["requests made with times, value returned"])

# ---------------------------------------------------------------- whole node
SN = "crates/subnetworks/"
R = "crates/rpc/src/"
p("N01", "Each request and event reaches the subnetwork it is meant for and no other",
  "A talk request of a peer whose protocol id is that of a running subnetwork is answered by that subnetwork; any other protocol id, and any message that is not a well-formed request, gets the empty answer. Pings, requests for records, for content and offers are answered from the tables and the store of that subnetwork alone, and only its routing table learns the peer. An event of one subnetwork is delivered once to each running subnetwork named as destination (all others if none is named) and never back to its source.",
  "inputs configurations", "All sets of running subnetworks, fourteen protocol ids, twelve messages, with and without a session; all events, sources and sets of destinations.",
  "Peertests, which need several nodes.",
  ["crates/portalnet/src/events.rs", SN], [("initialized node over a scripted discv5 and uTP", "crates/portalnet/src/events.rs")], ["answers, routing tables, events received"])
p("N02", "What the JSON-RPC interface stores is what it returns",
  "After any sequence of Store and PutContent calls, LocalContent, GetContent and TraceGetContent return for each key exactly the value the store keeps for it (for state, the part that is stored), and the error for absent content (-32099 for local content, -39001 for the others) otherwise; pages of local keys list every key once, with the total. A value that does not decode for its key, or that the store refuses, changes nothing: Store gives an error, PutContent reports that it was not stored locally. A key that is present keeps its value. Subnetworks do not share content.",
  "histories", "All histories up to a bound over all kinds of keys of the three subnetworks with good, malformed and refused values.",
  "Peertests, which need several nodes.",
  [R + "legacy_history_rpc.rs", R + "state_rpc.rs", R + "beacon_rpc.rs", SN + "legacy-history/src/jsonrpc.rs", SN + "state/src/jsonrpc.rs", SN + "beacon/src/jsonrpc.rs"], [("JSON-RPC methods of a whole node", R)], ["answers of all reading methods"])
p("N03", "Routing tables seen through JSON-RPC hold exactly what was added",
  "Through AddEnr, DeleteEnr, GetEnr and RoutingTableInfo each of the four tables (discv5 and the subnetworks) behaves as a map of its own from node id to the record added last, sorted into 256 buckets by log distance, of at most 16 added peers; removal tells whether there was something to remove, and the node itself is never in its table though subnetworks return its record. LookupEnr of a subnetwork returns the newest of the known record and those the peer itself gives, or else a record of that node found through the network, or an error.",
  "histories", "All histories up to a bound over the four tables and peers in the same and in different buckets; full buckets; nine kinds of answers to lookups.",
  "Peertests, which need several nodes.",
  [R, "crates/portalnet/src/overlay/protocol.rs"], [("JSON-RPC methods of a whole node", R)], ["answers, requests made"])
p("N04", "JSON-RPC calls to peers send what was asked and report what was answered",
  "Ping, FindNodes, FindContent, GetContent, TraceGetContent, Offer, TraceOffer and PutContent send exactly one well-formed request per peer under the protocol of their subnetwork (payload, distances, keys as given), and refuse, without sending, what is invalid: unsupported or mismatched ping payloads (-39004, -39005, -39006), no, repeated or out of range distances, no or more than 64 items, values that do not decode. The result is what the peer answered; content is returned only if valid, by transfer too (length-prefixed from version 1 on), found content is kept if it can be, and what was accepted, and only that, is transferred in order. A peer that does not answer or answers something else makes the call fail.",
  "inputs failures", "All combinations up to the bounds of subnetworks, parameters and answers: eight kinds of pongs, ten lists of distances, eight ways to give content, one to three items with all combinations of four codes and 64, with and without versions.",
  "Peertests, which need several nodes.",
  [R, SN, "crates/portalnet/src/overlay/protocol.rs"], [("JSON-RPC methods of a whole node", R)], ["requests sent, transfers, answers"])
p("N05", "The node serves the methods of its networks where configured",
  "A server listens exactly at the configured IPC path or HTTP address, with web sockets on their port and on one server if both ports are equal; it knows exactly the methods of discv5, web3 and the running subnetworks, and the eth methods if the legacy history network runs. nodeInfo and the own record in every subnetwork always show the address set last by updateNodeInfo, signed and with a sequence number that never goes back; an invalid address changes nothing. discv5 ping, findNode and talkReq ask the given peer exactly that and return its answer; lookupEnr finds a record that the table or one of the known peers has even if others do not answer.",
  "histories configurations failures", "All sets of subnetworks with five transport configurations, all histories of address changes up to a bound, all requests with answers; all combinations of up to four peers that know, do not know or do not answer.",
  "RPC server tests of transports.",
  [R + "lib.rs", R + "builder.rs", R + "rpc_server.rs", R + "discv5_rpc.rs", R + "web3_rpc.rs"], [("launch_jsonrpc_server, JSON-RPC methods of a whole node", R + "lib.rs")], ["servers, methods, answers"])
p("N06", "Blocks, accounts and calls are answered from proven content alone",
  "eth_getBlockByHash and ByNumber return the header, hashes of transactions and uncles, withdrawals and size of the block as stored. eth_getBalance, getCode and getStorageAt walk the state trie from the state root of the given block and return the value there, zero or nothing if the trie shows that there is none, and an error (never a wrong value) if a trie node, code, header or the state network is missing. eth_call hands the block, the transaction (with the gas limit and base fee of the block where none are given) and the same view of the state to the machine and returns its output, or error -32000 on revert and halt. Tags and full transactions are refused.",
  "inputs failures", "All states of up to three accounts of five kinds with each single trie node or code missing; blocks of five forks with all combinations of transactions, uncles and withdrawals; calls of all forks, gas and price settings that read everything.",
  "Unit tests of evm_state over one trie.",
  [R + "eth_rpc.rs", R + "evm_state.rs", R + "fetch.rs"], [("eth methods of a whole node", R + "eth_rpc.rs")], ["answers"])
p("N07", "A command line is refused if contradictory, else means what it says",
  "The node's command line is refused exactly if an option has an invalid value or options contradict each other: web sockets or an HTTP address with IPC, an IPC path with HTTP, a web socket port without web sockets, an external address without STUN, a subnetwork without those it depends on, a total storage together with one per subnetwork, or storage for other than the enabled subnetworks. Otherwise each option has the value given or its documented default, and the configurations of network, storage and RPC derived from it carry these values: the radius is that percentage of the whole, and the bootnodes are those given, none, or those of the network.",
  "inputs", "All combinations of transport options, of lists of up to three subnetworks and storage options; every option alone and in pairs with good and bad values, all percentages.",
  "Around twenty command lines.",
  ["bin/trin/src/cli.rs", "crates/utils/src/cli.rs", "crates/portalnet/src/bootnodes.rs", "crates/storage/src/config.rs"], [("TrinConfig::new_from", "bin/trin/src/cli.rs")], ["refusal, derived configurations"])
p("N08", "A node finds its key and its directory again, and no other node's",
  "Started without a key, a node uses the key kept in its data directory, which is made at the first such start and never changes. For each key and network, starts always yield the same existing directory inside the data directory, and different keys or networks different ones; what was left there stays. A start with a given key uses that key. An ephemeral start gets a new directory of its own each time.",
  "histories", "All histories of up to four starts over kept and given keys and three networks in a scratch directory; all mixes of four ephemeral and lasting starts.",
  "Three starts.",
  ["crates/portalnet/src/utils/db.rs", "crates/utils/src/dir.rs"], [("configure_trin_data_dir, configure_node_data_dir", "crates/portalnet/src/utils/db.rs")], ["keys, paths, files left"])
p("N09", "The machine gets the rules, block and transaction of the right fork",
  "The rule set for a block number up to Cancun is that of the last main network fork at or before it. The block environment has number, time, gas limit, beneficiary, difficulty and base fee (zero without one) of the header, the mix hash as randomness exactly from the merge on, and the excess blob gas exactly if the header has it. Each transaction type is handed over with its own number, fee fields, access list, blob hashes and chain id (for legacy transactions 1 from Spurious Dragon on, none before); of a call request exactly the fields that are given replace the defaults.",
  "inputs", "Blocks from two before to one after every fork, with all combinations of optional fields; four transaction types in several variants at each; all subsets of the fields of a request.",
  "One transaction per type and the fork blocks.",
  ["crates/evm/src/lib.rs", "crates/evm/src/spec_id.rs", "crates/evm/src/tx_env_modifier.rs"], [("create_block_env, create_evm", "crates/evm/src/lib.rs")], ["environments"])

# ---------------------------------------------------------------- execution of blocks
X = "bin/trin-execution/src/"
p("X01", "A walk over a state trie gives every node once, and slices share it out",
  "A walk over a whole trie yields each separately encoded node exactly once, with its path and the nodes from the root down to it as proof. A walk over slice i of n yields the root and exactly those nodes under which a key of the slice can lie; the slices together yield the whole trie. A walk over the part of a trie that is present yields exactly the nodes that can be reached within that part; a missing root is an error. Storage tries of different accounts in one database do not mix.",
  "structures", "Tries over all subsets of keys that part at the first, middle and last nibbles, with short and long values; all slices of several counts; all subsets of present nodes.",
  "Tries of up to three keys.",
  [X + "trie_walker/mod.rs", X + "trie_walker/filter.rs", X + "storage/account_db.rs", X + "storage/trie_db.rs"],
  [("TrieWalker, Filter", X + "trie_walker/"), ("AccountDB, TrieRocksDB", X + "storage/")], ["nodes, paths and proofs of walks"])
p("X02", "State content made from trie proofs has the right key and value",
  "The content made for an account trie node, a storage trie node or a contract's code has the key of that kind with the node's path, node hash, address hash and code hash, and the value with the proof nodes in order, the account proof and the block hash. Paths pack and unpack nibble by nibble; values that are no nibbles and empty proofs are refused.",
  "inputs", "Proofs of one to four nodes at paths of many lengths; paths of all lengths up to 64.",
  "One node of each kind.",
  [X + "content.rs", X + "utils.rs", X + "types/trie_proof.rs"], [("create_account_content_key and its fellows", X + "content.rs")], ["key and value bytes"])
p("X03", "The state database keeps exactly the state that was committed",
  "After each bundle of changes is committed, reads of accounts, storage and code give the new state, the state root is the one defined by that state, and the changed nodes that are reported are exactly the new nodes of the trie. Destroying an account removes its storage, also when it is created again in the same bundle; an emptied slot reads zero and leaves the trie. With caching on, the changed storage nodes and new codes of the block are kept until cleared; with it off, none are. Reopened, the database has the same state and position.",
  "histories", "All histories of bundles with eleven kinds of change to each of two accounts beside an untouched one, both orders, with and without cache, reopened or not.",
  "One bundle.",
  [X + "storage/evm_db.rs", X + "storage/execution_position.rs", X + "storage/account_db.rs", X + "storage/trie_db.rs"], [("EvmDB::commit_bundle", X + "storage/evm_db.rs")], ["root, reads, reported changes"])
p("X04", "Executing a block applies its transactions, rewards and fork rules exactly",
  "The state after a block is the state before with the system call of the beacon root (from Cancun on), the transactions in order, the block and uncle rewards of the fork, the withdrawals (in gwei) and, at the DAO fork block, the move of the balances of the listed accounts to the refund contract. Empty touched accounts are removed from Spurious Dragon on and kept before. A block whose gas used differs, whose transaction cannot be paid or that lacks its beacon root is refused. The first state is that of the genesis of the main network. The hashes of the last 256 blocks can be read during execution.",
  "inputs", "Blocks of up to two transactions out of twelve programs at 18 block numbers around all forks, and pairs of blocks; all mixes of uncles and withdrawals; the DAO block; blocks that must be refused.",
  "One transaction per block.",
  [X + "evm/block_executor.rs", X + "evm/post_block_beneficiaries.rs", X + "evm/pre_block_contracts.rs", X + "evm/dao_fork.rs"],
  [("BlockExecutor", X + "evm/block_executor.rs"), ("get_post_block_beneficiaries", X + "evm/post_block_beneficiaries.rs")], ["state root and accounts after the blocks"])
p("X05", "Execution can stop, fail and restart anywhere and still gets the right state",
  "A run executes the blocks from the next one to the given last one (to the current block if told to stop), commits them, and reports root and changed nodes of that state. A run to a block that is already done is refused. When a block cannot be had, uses other gas or ends with another root than its header says, the run fails; unless it was the root, what was committed before is a state between two blocks, and after a restart the remaining blocks lead to the right final state. Before each block the hashes of the 256 blocks before it can be read, also after failures and restarts.",
  "histories", "All histories of three sessions with four kinds of run, early commit by the clock, and each fault at each block.",
  "One run without faults.",
  [X + "execution.rs", X + "storage/execution_position.rs"], [("TrinExecution::process_range_of_blocks, commit", X + "execution.rs")], ["position, root, reads, block hashes"])
p("X06", "A state snapshot holds the whole state and only a faithful one is imported",
  "An export writes header, every account with its state, code and storage, ordered by address hash, under the name of block and root; it refuses a database that ran nothing, one whose root is not that of the header, and an existing file. Importing it into an empty database gives the same state, position and the hashes of the last 256 blocks, from which the next block can be run. A snapshot with any account, slot, code or root altered, added, missing or cut is refused with the position left at zero, and a database that has a position refuses any import. After a failed import the right snapshot can be imported.",
  "structures", "States of all subsets of six kinds of account; each alteration of each account; the file cut at each byte; each write failing; each block missing.",
  "One state there and back.",
  [X + "subcommands/e2ss/export.rs", X + "subcommands/e2ss/import.rs"], [("StateExporter, StateImporter", X + "subcommands/e2ss/")], ["bytes of the file, state after the import"])
p("X07", "Blocks come out of archives and beacon blocks complete and in order",
  "Blocks are handed out one by one from the asked number on, across archive files; a missing archive is an error and does not skip blocks. Each block has the header, transactions with recovered senders in order, uncles and withdrawals of the archive. A block made from a beacon block of each fork has the header whose fields and roots follow from it; one with a transaction that cannot be decoded is refused.",
  "inputs", "Starts around file boundaries with archives present or missing; blocks of every fork with several mixes of transactions; beacon blocks of four forks.",
  "One archive.",
  [X + "e2hs/manager.rs", X + "e2hs/utils.rs", X + "e2hs/types.rs", X + "e2hs/beacon.rs"], [("E2HSManager", X + "e2hs/manager.rs"), ("process_beacon_block", X + "e2hs/beacon.rs")], ["blocks handed out"])
p("X08", "Traces are written for the wanted blocks only and do not change the result",
  "A trace file exists after a run for exactly each transaction of the blocks that were asked for (none, all, or one), under the directory of its block and named by its hash. State and position are the same with and without traces, also if the files cannot be written. The words of the option are read as meant and others refused; command lines give the configuration they describe.",
  "inputs", "Runs with each choice of blocks, with a directory that can and cannot be written; words; command lines.",
  "One run with all traces.",
  [X + "types/block_to_trace.rs", X + "cli.rs", X + "config.rs", X + "execution.rs"], [("BlockToTrace", X + "types/block_to_trace.rs")], ["files, state, parsed values"])

if __name__ == "__main__":
    ids = [o["id"] for o in OUT]
    assert len(ids) == len(set(ids))
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for o in OUT:
            f.write(json.dumps(o, ensure_ascii=False) + "\n")
    print(len(OUT), "properties")
