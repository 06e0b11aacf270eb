#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (kept in git next to its output)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

T='src/transaction/types/'
p('C01','Binary encoding round-trips every transaction and component',
 "Decoding the binary encoding of any script, create or mint transaction, or of any input, output, witness, storage slot, UTXO id or transaction pointer, gives back exactly the original value (cached metadata aside). The encoding's length equals the size the value reports for itself, decoding consumes exactly that many bytes, and bytes that follow the encoding never change the result. (Values outside the wire domain are excluded: a predicate input whose predicate is empty.)",
 ['inputs'],'every value of each type: all variants, all vector lengths incl. every residue mod 8 and 0, >255 element vectors, payloads above 64 KiB, extreme integers; every suffix appended; every previous content of the decoded-into instance',
 'tests/bytes.rs round-trips a few dozen random values of modest sizes per variant; boundary lengths, large counts, trailing data and reused destination values are sampled little or not at all',
 [T+'script.rs',T+'create.rs',T+'mint.rs',T+'input.rs',T+'output.rs',T+'witness.rs',T+'storage.rs',T+'utxo_id.rs','src/tx_pointer.rs','src/transaction/txio.rs'],
 [('io::Read/io::Write per type','src/transaction/types/*.rs'),('serialized_size','SizedBytes impls'),('try_from_bytes','src/transaction/txio.rs')],
 obs=['to_bytes','from_bytes','Transaction::try_from_bytes','serialized_size'])
p('C02','Binary encoding is the documented canonical wire format',
 "The encoding of a transaction (and of each of its components) is byte-for-byte the published layout: big-endian 8-byte words, the type discriminants, the field order, length words carrying unpadded lengths, byte strings zero-padded to a word, and zeros in the fields a variant does not use. Encoding into a caller's buffer writes exactly the reported number of bytes, all of them determined by the value alone whatever the buffer held before, and leaves the rest of the buffer untouched.",
 ['inputs'],'every transaction and component value, every destination buffer size and previous content',
 'existing tests only compare the encoder with the decoder, so a symmetric change of both (order, padding, discriminant, endianness) is invisible to them, and they always encode into zeroed buffers of the exact size',
 [T+'script.rs',T+'create.rs',T+'mint.rs',T+'input.rs',T+'output.rs',T+'witness.rs',T+'storage.rs','src/transaction/repr.rs'],
 [('io::Read impls','src/transaction/types/*.rs'),('fixed size constants','src/consts.rs, input/consts.rs, output/consts.rs')],
 obs=['io::Read::read into dirty/oversized buffers','to_bytes'])
p('C03','Decoding arbitrary bytes is total, memory-safe and proportionate',
 "Decoding any byte string as a transaction, any of its components or a receipt returns either an error or a value: it never panics, aborts, touches memory outside the given bytes or allocates more than an amount proportional to the length of the given bytes. On success it reports consuming no more bytes than were given, the value is determined by the bytes alone whatever the destination held before, and re-encoding the decoded value yields an encoding that is not longer than what was consumed and decodes to the same value again.",
 ['inputs'],'every byte string, including hostile length and count words (0, huge, near the integer limits), unknown discriminants, spliced and bit-flipped encodings',
 'no existing test feeds malformed or adversarial bytes beyond a few truncations; hostile counts are never tried',
 [T+'script.rs',T+'create.rs',T+'mint.rs',T+'input.rs',T+'output.rs',T+'witness.rs','src/receipt/receipt_std.rs','src/transaction/txio.rs'],
 [('length guards before unchecked reads','io::Write impls'),('eof errors','bytes::eof')],
 obs=['try_from_bytes / from_bytes under a counting allocator, ASan and Miri'])
p('C04','Truncated or malformed encodings and short buffers are rejected',
 "Every strict prefix of a valid encoding of a transaction, component or receipt is rejected with an error, as is an unknown type discriminant at any nesting level, a discriminant of another transaction type given to a concrete type's decoder, a declared length or count that the remaining bytes cannot satisfy, and a block height or transaction index that exceeds its range. Encoding into a buffer shorter than the reported size returns an error.",
 ['inputs'],'every value, every prefix length, every position of a discriminant or length word, every too-short destination length',
 'tests/bytes.rs truncates only at the total length minus a few bytes for some types',
 [T+'script.rs',T+'create.rs',T+'mint.rs',T+'input.rs',T+'output.rs',T+'witness.rs',T+'storage.rs',T+'utxo_id.rs','src/tx_pointer.rs','src/receipt/receipt_std.rs'],
 [('buffer length checks','io::Read/io::Write impls'),('Repr TryFrom<Word>','input/repr.rs, output/repr.rs, transaction/repr.rs')],
 obs=['from_bytes/try_from_bytes/read results'])
p('C05','Transaction id is the SHA-256 of the canonical signing form',
 "The id of a script or create transaction is the SHA-256 of its encoding after removing all witnesses and zeroing exactly the fields the protocol lets change after signing (receipts root; transaction pointers of coin and contract inputs; UTXO id, balance and state roots of contract inputs; balance and state roots of contract outputs; recipient and amount of message outputs; amount of change outputs; every payload field of variable outputs); the id of a mint transaction is the SHA-256 of its encoding. The id is the same for the bare and the wrapped transaction, before and after caching, cloning, signing, a binary or JSON round trip, and computing it never alters the transaction.",
 ['inputs','histories'],'every transaction and every sequence of caching / cloning / signing / re-decoding / wrapping operations',
 'the id tests compare ids of the same implementation with each other on a few generated transactions; no absolute reference value over arbitrary transactions',
 ['src/transaction/id.rs',T+'script.rs',T+'create.rs',T+'mint.rs',T+'input.rs',T+'output.rs','src/transaction/metadata.rs'],
 [('prepare_sign','input.rs, output.rs'),('UniqueIdentifier::id','script.rs, create.rs, mint.rs'),('CommonMetadata::compute','metadata.rs')],
 state=[('metadata','cached id and offsets','Script/Create/Mint')],obs=['id()'])
p('C06','Transaction id binds every field except the malleable ones',
 "Changing the value of any field the sender commits to (every field other than the witnesses and those listed as mutable after signing), or adding, removing or reordering inputs, outputs or storage slots, changes the transaction id. Changing only witnesses or mutable fields never changes it. For mint transactions every field is binding.",
 ['inputs'],'every transaction, every single field in every input/output/slot position, every replacement value incl. single-bit changes, and pairs of such changes',
 'id.rs inverts all matching fields of a handful of generated transactions at once; single-position, single-bit and length-moving changes (bytes shifted between adjacent byte strings) are not tried',
 ['src/transaction/id.rs',T+'script.rs',T+'create.rs',T+'mint.rs',T+'input.rs',T+'output.rs'],
 [('prepare_sign','input.rs, output.rs'),('length words in encoding','io::Read impls')],obs=['id()'])
p('C07','Signature and predicate-owner checks accept exactly authorised spends',
 "The signature check of a script or create transaction succeeds if and only if every signed coin or message input points to an existing 64-byte witness whose signature over the transaction id recovers to a key hashing to that input's owner (recipient for messages), and every predicate input's owner equals the code root of its predicate. The error, if any, names an input that is in fact unauthorised; contract inputs need no authorisation and mint transactions always pass.",
 ['inputs'],'every transaction, key set, witness assignment (shared, swapped, missing, wrong length, corrupted, signature by another key or over another id) and predicate/owner pair',
 'tests cover one good and one bad example per input kind',
 ['src/transaction/checkable.rs',T+'input.rs',T+'script.rs',T+'create.rs'],
 [('Input::check_signature','checkable.rs'),('is_predicate_owner_valid','input.rs'),('check_predicate_owners','transaction.rs')],obs=['check_signatures','check','check_predicate_owners'])
p('C08','Signing authorises exactly the signer inputs and touches nothing else',
 "Signing with a key replaces exactly those existing witnesses that are referenced by a signed coin or message input owned by that key, each with a 64-byte signature over the transaction id that recovers to the key; no other witness, input, output or field changes and the id stays the same. Signing with every owner's key, in any order and repeatedly, makes the signature check pass whenever no witness is shared by different owners and all referenced witnesses exist.",
 ['inputs','histories'],'every transaction, owner/witness assignment and signing order',
 'tests sign freshly built transactions with one key per appended input; interleaved owners, shared and non-adjacent witness indices, decoy witnesses and missing witnesses are not covered',
 ['src/transaction/id.rs','src/transaction.rs'],
 [('Signable::sign_inputs','id.rs'),('add_unsigned_coin_input / add_unsigned_message_input','transaction.rs')],obs=['witnesses before/after sign_inputs','check_signatures'])
p('C09','Structural validation accepts exactly well-formed script/create transactions',
 "For any script or create transaction, block height and consensus parameters, the signature-less validity check succeeds if and only if every protocol rule holds: gas limit, maturity and count limits; unique coin UTXO ids, contract ids and message ids among inputs; predicate, predicate-data and message-data limits and non-empty predicates; witness indices in range; one matching contract output per contract input and vice versa; coin and change outputs only for assets among the inputs and at most one change output per asset; script and script-data limits and no created contract in scripts; for creates: bytecode witness present, within the size limit and matching the declared word length, storage slots within the limit and sorted by key, no contract inputs or contract/variable outputs, change only in the base asset and at most one created contract. When it fails, the reported error is one of the rules actually violated, with the right position or value. All limits are inclusive.",
 ['inputs','configurations'],'every transaction, height and parameter set; every combination of violated rules, each at its exact boundary and one past it',
 'tests/valid.rs and valid_cases give one accepting and one rejecting example per rule with default parameters',
 ['src/transaction/checkable.rs',T+'script.rs',T+'create.rs','src/transaction/consensus_parameters.rs'],
 [('check_common_part','checkable.rs'),('check_without_signature(s)','checkable.rs, script.rs, create.rs'),('next_duplicate','checkable.rs')],obs=['check_without_signatures','Input::check_without_signature','Output::check'])
p('C10','Mint validation accepts exactly well-formed mint transactions',
 "A mint transaction is valid at a block height under given parameters if and only if it has no more outputs than allowed, its transaction pointer names that block height, all its outputs are coin outputs and no two of them have the same asset; a failure reports a rule that is actually violated. Its signature check always succeeds.",
 ['inputs','configurations'],'every mint transaction, block height (including heights that differ only above 32 bits) and output limit',
 'a few examples in tests; heights beyond u32, exact output limits and distant duplicates are not covered',
 [T+'mint.rs'],[('Checkable for Mint','mint.rs')],obs=['check_without_signatures','check','into_checked'])
p('C11','Fee and refund arithmetic is exact and overflow-safe',
 "For any parameters with a non-zero price factor, the computed gas for bytes is bytes times gas-per-byte, the maximum gas adds the gas limit, and the minimum and total fees are those gas amounts times the price divided by the factor, rounded up; the refund value is gas times price divided by the factor, rounded down. A result is reported if and only if every gas amount and every gas-times-price product (for the refund: only the final quotient) fits in 64 bits; otherwise overflow is reported, never a wrapped value or a panic. A transaction's fee uses its own gas price and limit and the size of its encoding without witnesses.",
 ['inputs','configurations'],'every parameter set, byte size, gas limit and gas price in the full 64-bit range',
 'six hand-picked examples in fee.rs',
 ['src/transaction/fee.rs',T+'script.rs',T+'create.rs'],
 [('checked_from_values / gas_refund_value / checked_from_tx','fee.rs'),('metered_bytes_size','script.rs, create.rs')],obs=['TransactionFee'])
p('C12','Initial free balances conserve value per asset',
 "When a script or create transaction is accepted, the initial free balance of every asset is exactly the sum of its coin inputs of that asset (plus all message inputs, for the base asset) minus its coin outputs of that asset, minus the total fee for the base asset, with an entry for exactly the input assets and the base asset. A structurally valid transaction is rejected precisely when some sum exceeds 64 bits, the fee overflows, the base asset cannot cover the fee, or an asset cannot cover its coin outputs, with the corresponding error; no amount is ever created, lost or wrapped.",
 ['inputs','configurations'],'every transaction (assets, amounts up to the maximum, input and output kinds and orders) and fee parameters',
 'a few tests with one or two assets and small amounts; sums near the 64-bit limit are never tried',
 ['src/checked_transaction.rs','src/transaction/fee.rs'],
 [('initial_free_balances','checked_transaction.rs'),('checked_deduct_total','fee.rs')],obs=['Checked::metadata','into_checked_basic errors'])
p('C13','A checked transaction always carries a truthful verdict',
 "A checked transaction is obtained if and only if the full set of checks it claims (basic, or basic and signatures) passes on the content it holds, even when the value it was built from carried outdated cached data; it holds exactly the submitted transaction, the height it was checked at, and the fee and balances computed from it. Conversions between the generic, concrete and enum checked forms and back to the parts preserve transaction, metadata and claimed checks, and the signature claim appears only after the signatures have been verified successfully.",
 ['inputs','histories','configurations'],'every transaction (including ones precomputed and then modified), height, parameter set, and sequence of check/convert operations',
 'tests convert a default checked transaction back and forth; stale caches and failing second-stage checks are not exercised',
 ['src/checked_transaction.rs',T+'script.rs',T+'create.rs',T+'mint.rs'],
 [('IntoChecked::into_checked(_basic)','checked_transaction.rs'),('Checks bitmask','checked_transaction.rs'),('From conversions','checked_transaction.rs')],
 state=[('checks_bitmask','which checks passed','Checked')],obs=['checks()','metadata()','transaction()'])
p('C14','Reported field offsets and lengths locate the field in the encoding',
 "Every offset the library reports for a transaction field, a storage slot, an input, an output, a witness or a predicate equals the position of that element's bytes in the transaction's encoding, and the reported predicate length is its padded length; offsets within inputs and outputs locate the named field in the element's encoding. An index past the end yields no offset, an element without the named field yields none, and the answers are the same whether or not they come from the cache.",
 ['inputs'],'every transaction (element kinds, sizes and counts), every index including out-of-range ones, cached and not',
 'tests/offset.rs checks a few generated transactions with a handful of elements and only for the elements they happen to have',
 [T+'script.rs',T+'create.rs',T+'mint.rs',T+'input.rs',T+'input/repr.rs',T+'output/repr.rs','src/transaction/metadata.rs'],
 [('*_offset accessors','field impls'),('CommonMetadata/MintMetadata::compute','metadata.rs, mint.rs')],obs=['all *_offset* accessors vs. encoding'])
p('C15','Cached metadata is unobservable except in speed',
 "A transaction with freshly computed cached metadata answers every query (id, offsets, sizes, fees, validity, encodings, equality, hash) exactly like an identical transaction without it, and recomputing the cache after any modification gives the answers of a freshly built transaction. Decoding and deserialising never carry cached data over, even into a destination that had some, and cloning preserves it faithfully.",
 ['inputs','histories'],'every transaction and every interleaving of modification, cache computation, cloning, decoding-into and signing',
 'only a handful of precompute-then-compare assertions on generated transactions',
 ['src/transaction/metadata.rs',T+'script.rs',T+'create.rs',T+'mint.rs'],
 [('Cacheable::precompute','script.rs, create.rs, mint.rs'),('metadata: None on decode / serde skip','script.rs, create.rs, mint.rs')],
 state=[('metadata','cached id and offsets','Script/Create/Mint')],obs=['all queries on cached vs. uncached twins'])
p('C16','Receipts encode, decode and report their fields faithfully',
 "For every receipt kind, the encoding has the reported size, is the documented field sequence in big-endian words with length-prefixed padded data, depends only on the receipt's content whatever the destination buffer held, and decodes to an equal receipt, whatever follows it. Every accessor returns exactly the field the receipt was built with and nothing for kinds that lack the field. (The panic contract id is not part of the encoding or of equality.)",
 ['inputs'],'every receipt kind, data length (all residues, empty, large), integer and identifier value, panic reason and script result',
 'tests/bytes.rs and receipt tests round-trip a few random receipts into fresh zeroed buffers; field accessors are mostly untested',
 ['src/receipt.rs','src/receipt/receipt_std.rs','src/receipt/receipt_repr.rs','src/receipt/script_result.rs'],
 [('io::Read/io::Write for Receipt','receipt_std.rs'),('variant_len_without_data','receipt.rs'),('accessors','receipt.rs')],obs=['to_bytes/from_bytes/read','accessors'])
p('C17','Contract code root, state root and id match the protocol definition',
 "A contract's code root is the binary Merkle root over its code in zero-padded 8-byte leaves, its state root is the sparse Merkle root over its storage slots independent of their order, its id is the SHA-256 of the protocol seed, salt, code root and state root, and a predicate's owner is its code root. Extracting a contract from a create transaction yields exactly the bytes of the witness its bytecode index selects, or an error if there is none.",
 ['inputs'],'every code length and content, slot set and order (distinct keys, keys sharing long prefixes), salt, and witness index',
 'tests compare a few lengths through insta snapshots and one re-implementation over the same Merkle library',
 ['src/contract.rs',T+'input.rs',T+'create.rs'],
 [('root_from_code / initial_state_root / id','contract.rs'),('TryFrom<&Create>/<&Transaction> for Contract','contract.rs, create.rs')],obs=['roots and ids vs. independent Merkle reference'])
p('C18','Text forms of UTXO ids and transaction pointers round-trip; parsing is total',
 "Formatting a UTXO id in lower or upper hexadecimal, with or without the 0x prefix, or a transaction pointer in lower or upper hexadecimal, and parsing the text gives back the same value, and the lower-case form is the fixed-width hexadecimal digits of its fields (after 0x, if prefixed). A UTXO id text of at most two digits is the output index of the all-zero transaction id (none: index zero). Parsing an arbitrary string returns a value or an error and never panics.",
 ['inputs'],'every UTXO id, transaction pointer and string (any length, any Unicode content)',
 'one or two fixed values are parsed and formatted; no malformed strings, no non-ASCII',
 [T+'utxo_id.rs','src/tx_pointer.rs'],[('FromStr / LowerHex / UpperHex','utxo_id.rs, tx_pointer.rs')],obs=['format! and parse results'])
p('C19','JSON and serde representations round-trip and parsing is total',
 "Converting any transaction to JSON and back, or through a binary serde format, yields an equal transaction with the same id and encoding and without cached data; receipts, inputs, outputs, witnesses, consensus parameters, fees and check errors survive a serde round trip unchanged. Parsing an arbitrary string as a transaction yields a transaction or nothing (nothing if it is not exactly one JSON document) and never panics, and consensus parameters with missing fields take the defaults.",
 ['inputs'],'every transaction and component value; every string, including mutated JSON of real transactions',
 'display/serde tests cover bincode on a small set of values and never malformed JSON',
 ['src/transaction.rs','src/receipt.rs',T+'script.rs',T+'create.rs',T+'mint.rs','src/transaction/consensus_parameters.rs'],
 [('to_json/from_json','transaction.rs'),('serde derives, serde(skip) metadata, serde(default)','types')],obs=['to_json/from_json, bincode'])
p('C20','Preparing for execution zeroes exactly the machine-writable fields',
 "Preparing a transaction for script execution zeroes the amount of change outputs, the recipient and amount of message outputs and all payload fields of variable outputs and nothing else. Preparing it for predicate verification zeroes exactly the input and output fields excluded from the id. Both are idempotent and leave the id, the encoded size, all offsets, witnesses and element counts and kinds unchanged.",
 ['inputs'],'every transaction, each input/output kind at any position, any order and repetition of the two preparations',
 'tests/prepared_init.rs covers one output per kind and asserts only the zeroed fields',
 ['src/transaction.rs',T+'input.rs',T+'output.rs'],
 [('prepare_init_script / prepare_init_predicate / prepare_sign','transaction.rs, input.rs, output.rs')],obs=['transaction before/after'])
p('C21','The builder produces exactly the described transaction, signed and cached',
 "A transaction finalised from the builder equals the one constructed directly from the same parameters, inputs, outputs and witnesses in the order given (with the outputs or inputs prepared for execution when so requested, which is the default only for scripts), every added unsigned input refers to its own fresh witness which carries a valid signature of the given key over the final id after signing (an empty one if finalised without signatures), and its cached metadata is current. Signing and finalising a valid set of inputs always yields a transaction that passes the signature check; the checked finalisers return exactly what checking the finalised transaction returns. A builder that has finalised can be used again: it starts from the default transaction and keeps its keys and preparation requests.",
 ['inputs','histories'],'every sequence of builder calls, in every order, with up to 255 witnesses',
 'the builder is used as a test fixture; its result is never compared with a direct construction over arbitrary call sequences',
 ['src/builder.rs','src/transaction.rs'],[('TransactionBuilder','builder.rs'),('add_unsigned_*','transaction.rs')],obs=['finalize* results'])
p('C22','Consensus-parameter setters are independent and offsets follow them',
 "Setting one consensus parameter changes that parameter to the given value and no other, in any order of setters; the default parameters are the published ones (as are the deprecated default constants). The transaction memory offset equals 32 + 8 + 40 times the maximum number of inputs.",
 ['inputs','configurations'],'every parameter set, setter sequence and value',
 'no test sets parameters in varying orders or checks the untouched ones',
 ['src/transaction/consensus_parameters.rs'],[('with_* setters, tx_offset','consensus_parameters.rs')],obs=['public fields after setter sequences'])
p('C23','The no-std build gives the same verdicts as the std build',
 "Built without the standard library support, the crate reaches the same structural-validity verdicts, asset and size queries, fees, code roots and text forms as the standard build for the same transaction, height and parameters; where several rules are violated it may report another violated rule, and unordered asset lists may be in another order.",
 ['inputs','configurations'],'every transaction, height and parameter set, in both build configurations',
 'tests run only with all features; the no-std configurations are merely type-checked',
 ['src/transaction/checkable.rs','src/transaction.rs','src/lib.rs'],
 [('next_duplicate (sorted windows vs. hash set)','checkable.rs'),('input_asset_ids_unique','transaction.rs')],obs=['verdict logs of the two builds over the same generated cases'])
p('C24','Results depend only on arguments: any order, any thread, any history',
 "Every operation of the library gives the same result for the same arguments regardless of what was computed before, in which order, or concurrently on other threads, without data races; sharing a transaction among threads for reading is safe.",
 ['schedules','histories','inputs'],'every interleaving of read-only operations on shared and on distinct transactions over several threads, and every preceding sequence of operations',
 'all existing tests are single-threaded on fresh values; hidden shared state would not show',
 ['src/transaction/id.rs','src/transaction/metadata.rs','src/transaction/checkable.rs','src/contract.rs','src/transaction/types/input.rs'],
 [('absence of shared mutable state','whole crate'),('secp256k1 contexts in fuel-crypto','dependency')],obs=['per-thread result logs vs. sequential reference, ThreadSanitizer'])
p('C25','Component queries report exactly what the component holds',
 "For every input and output kind, each query (owner, amount, asset, UTXO id, contract id, message fields, witness index, predicate and data, roots, pointers, maturity, kind predicates) returns the field it was built with, and nothing for kinds without it, messages counting as the base asset. The asset list of a transaction names the asset of each coin or message input in input order, the unique list each of them once in first-seen order, and the contract list each input contract once in first-seen order.",
 ['inputs'],'every input and output value, every transaction with repeated, interleaved and absent assets and contracts',
 'a few accessors are used in other tests with single values',
 [T+'input.rs',T+'output.rs','src/transaction.rs'],[('accessors','input.rs, output.rs'),('Executable::input_asset_ids/_unique/input_contracts','transaction.rs')],obs=['accessor results vs. constructor arguments'])
p('C26','Message ids, nonces and digests match the protocol definition',
 "An input message id is the SHA-256 of sender, recipient, nonce word, amount word and data; an output message id is the SHA-256 of sender, recipient, 32-byte nonce, amount word and data; an output message nonce is the SHA-256 of the transaction id and the one-byte output index; a message digest is the SHA-256 of the data. A message receipt made from a transaction output carries exactly these values together with its sender, recipient, amount and data, and an unsigned message input added to a transaction carries the matching message id.",
 ['inputs'],'every sender, recipient, nonce, amount, data and index (index in one-byte range)',
 'no test compares these with an independent computation over varied data',
 [T+'input.rs',T+'output.rs','src/receipt.rs','src/transaction.rs'],[('compute_message_id','input.rs'),('message_id / message_nonce / message_digest','output.rs'),('message_out_from_tx_output','receipt.rs')],obs=['ids vs. independent SHA-256'])
p('C27','Equality, hashing and ordering follow the content exactly',
 "Two transactions (bare or wrapped), inputs, outputs, witnesses, storage slots, UTXO ids, transaction pointers, receipts or consensus parameters are equal if and only if they are of the same kind and all their fields are equal, whether or not either carries cached metadata (and, for panic receipts, whatever the contract id); equal values hash equally and a clone equals its original. UTXO ids and transaction pointers order by their fields in sequence, storage slots by key.",
 ['inputs','histories'],'every pair of values differing in any one place or in none, cached or not',
 'tests compare equal values or wildly different random ones, never pairs that differ in one field',
 [T+'script.rs',T+'create.rs',T+'mint.rs',T+'input.rs',T+'output.rs',T+'storage.rs',T+'utxo_id.rs','src/tx_pointer.rs','src/receipt.rs'],
 [('derive / derivative PartialEq, Hash, Ord','all value types'),('ignored metadata and panic contract id','script.rs, create.rs, mint.rs, receipt.rs')],obs=['==, != , hash and cmp results vs. equality of independent models'])
p('C28','Constructing and editing a transaction changes exactly what was asked',
 "A constructed script, create or mint transaction holds exactly the given parts (receipts root zero; bytecode length the whole 4-byte words of the witness its index selects, or zero if there is none). Writing any field through its accessor, on the bare or the wrapped transaction, changes that field to the given value and no other, in any sequence of edits. Adding an unsigned coin or message input appends exactly that input, owned by the given key or recipient and pointing to one new empty witness appended last, and changes nothing else. (Fewer than 256 witnesses.)",
 ['inputs','histories'],'every transaction and every sequence of edits',
 'accessors are used one at a time, and untouched fields are not looked at',
 ['src/transaction.rs',T+'script.rs',T+'create.rs',T+'mint.rs'],[('field traits','transaction.rs, script.rs, create.rs, mint.rs'),('Transaction::script/create/mint, add_unsigned_*','transaction.rs')],obs=['all fields and the encoding after every edit vs. a model edited alongside'])
p('C29','Value types keep and convert their content without loss',
 "A witness holds exactly the bytes it was made from, and writing through its byte view or vector or extending it changes exactly those bytes as a byte vector would. A storage slot, UTXO id and transaction pointer hold the parts they were made from; a slot's 64-byte form is its key followed by its value and converts back to the slot, and declared fixed lengths are the encoded ones. Every 64-bit word converts to a script result and back to the same word (0, 1 and 2 being success, revert and panic), and a word converts to a transaction, input or output kind if and only if it is that kind's number. A check error turned into an I/O error still carries that error. Randomly drawn values are a function of the generator alone and survive the binary encoding.",
 ['inputs'],'every byte string, edit sequence, 64-bit word, part and generator state',
 'conversions are exercised with a few constants, if at all',
 [T+'witness.rs',T+'storage.rs',T+'utxo_id.rs','src/tx_pointer.rs','src/receipt/script_result.rs','src/transaction/repr.rs',T+'input/repr.rs',T+'output/repr.rs','src/transaction/checkable/error.rs'],
 [('From/AsRef/AsMut/Extend','witness.rs'),('Bytes64 conversions','storage.rs'),('Word conversions','script_result.rs, repr.rs'),('Distribution for Standard','witness.rs, storage.rs, utxo_id.rs, tx_pointer.rs')],obs=['converted values vs. the parts they came from'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
