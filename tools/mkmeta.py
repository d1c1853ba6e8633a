#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PM = 'lib/python-proofmarshal/proofmarshal/'
BL = 'lib/python-bitcoinlib/bitcoin/'
PC = 'proofchains/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), trust=''):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], observe=list(observe), trust=trust))


prop('C01', 'Bit arrays behave as immutable sequences of bits',
     'A bit array behaves in every respect as an immutable sequence of booleans: construction from any iterable or from a byte buffer with a bit length, length, iteration, indexing and slicing (also negative, stepped and out of range), concatenation, inversion, prefix test and longest common prefix give what the same operation on a tuple gives. Equality depends on the bits only, whatever lies in unused bits of the buffer, and no operation changes its operands.',
     'inputs histories', 'all bit arrays however built (including buffers with junk past the last bit), all operations, indexes and slices, in any sequence',
     'The tests try a few arrays per operation; lengths modulo eight and junk in the last byte interact in every pair of operands.',
     [PM + 'bits.py'], [('masking of the last byte', PM + 'bits.py Bits.__tail_bits'), ('bit shifting concatenation and slices', PM + 'bits.py Bits.__add__, __getitem__'), ('prefixes', PM + 'bits.py Bits.startswith, common_prefix')],
     ['public methods of Bits'])
prop('C02', 'Bit arrays: total order, and an encoding of the bits alone',
     'The ordering of bit arrays is a strict total order consistent with equality (exactly one of less, equal, greater holds, and it is transitive), so the two children of a trie node sort the same for everyone. The serialized form depends on the bits only, is their length followed by the packed bits with unused bits zero, and reading it back gives an equal array; truncated or otherwise damaged encodings are refused or read as exactly the array they encode.',
     'inputs', 'all pairs and triples of bit arrays; all encodings and byte strings given to the decoder',
     'The tests compare a handful of arrays of whole bytes and encode three.', [PM + 'bits.py'],
     [('comparison', PM + 'bits.py Bits.__lt__, __eq__, total_ordering'), ('codec', PM + 'bits.py BitsSerializer')])
prop('C03', 'Primitive serializers: declared ranges, exact format, round trip',
     'Booleans, fixed and variable length byte strings, digests and unsigned integers of each width are accepted exactly if of the right type and inside the declared range, and otherwise refused with a serializer type or value error. Accepted values are written in the specified format (little-endian base-128 integers without padding, length-prefixed byte strings) and read back equal, alone and in any sequence on one stream.',
     'inputs', 'all values and types of value given to every primitive serializer of any declared size; all sequences of values on a stream',
     'The tests use a few values per serializer; limits are attained only at particular lengths and integers.', [PM + 'serialize.py'],
     [('range checks', PM + 'serialize.py check_instance of SerBool, FixedBytes, VarBytes, UInt'), ('varuint', PM + 'serialize.py StreamSerializationContext.write_varuint, StreamDeserializationContext.read_varuint')])
prop('C04', 'Strict decoding of proof data',
     'A byte string is accepted by a proof-marshalling decoder only if it is, to the last byte, the encoding of the value returned: truncated data, trailing junk, non-minimal integers, invalid booleans, unknown variants and values out of range are all refused with a deserialization error. Two different byte strings never decode to values that serialize to the same bytes, and no input makes the decoder fail in any other way.',
     'inputs', 'all byte strings given to the decoder of any type (primitives, bit arrays, transactions and outpoints, proof classes, variant families, unions)',
     'The tests feed a few valid strings and hardly any malformed one; canonical decoding is a claim on every string.', [PM + 'serialize.py', PM + 'proof.py', PM + 'bits.py', PC + 'core/bitcoin.py'],
     [('transactions and outpoints', PC + 'core/bitcoin.py CTransactionSerializer, COutPointSerializer'), ('end of data check', PM + 'serialize.py Serializer.deserialize'), ('truncation', PM + 'serialize.py StreamDeserializationContext.fd_read'), ('minimal integers', PM + 'serialize.py read_varuint'), ('variants', PM + 'proof.py VarProof._ctx_deserialize_variant, ProofUnion.ctx_deserialize')],
     trust='nesting deeper than the interpreter recursion limit is outside the claim')
prop('C05', 'Commitments follow the specification and identify content',
     'The commitment of a proof is the specified tagged HMAC of the hashes and encodings of its attributes, so that anyone can compute it independently of how the object was made, used or transported. Equal content of one class gives equal commitments, and any two proof objects, also of different classes, compare equal exactly if their commitments are equal, while any difference in any attribute, in the tag of the class or in its variant gives a different commitment and unequal objects.',
     'programs inputs', 'all proof class declarations (inheritance, variant families, unions, nesting) and all their instances',
     'The tests compare the hashes of about ten instances with constants; class hierarchies and near-equal contents are not varied.', [PM + 'proof.py', PM + 'serialize.py'],
     [('hash of attributes', PM + 'proof.py Proof.calc_data_hash, calc_hash'), ('domain separation', PM + 'serialize.py HashTag, PM proof.py VarProof.declare_variant'), ('equality', PM + 'proof.py Proof.__eq__, __hash__')])
prop('C06', 'Pruning keeps the commitment and every visited part',
     'A pruned proof, and what is read back from its serialized form, has the commitment of the original, and everything that was looked at through it has the original value. Serializing keeps exactly what was looked at: any other part is refused with a pruned-data error, never answered wrongly, and pruning or using a pruned proof does not change the original.',
     'inputs histories', 'all proofs, all sets of visited parts in every order of visiting, hashing and serializing, any number of trips over the wire',
     'The tests prune a few two-level proofs along one path.', [PM + 'proof.py'],
     [('lazy unpruning and dependency marking', PM + 'proof.py Proof.prune, __getattr__'), ('pruned serialization', PM + 'proof.py Proof.ctx_serialize, _ctx_serialize_pruned, _ctx_deserialize_pruned')],
     ['attributes of pruned instances', 'serialize() of pruned instances'])
prop('C07', 'Proofs are immutable and using them has no side effect',
     'No attribute of a proof can be assigned or deleted, whether declared, internal or new, and whether the proof is whole, pruned or read back. Hashing, comparing, serializing, pruning, printing and putting a proof inside another change neither it nor anything it contains; none of these brings anything into view of a pruned proof, and using one pruned view does not change another.',
     'histories', 'all proofs, attribute names and sequences of uses',
     'One test assigns one attribute of one class.', [PM + 'proof.py'], [('attribute protection', PM + 'proof.py Proof.__setattr__, __delattr__'), ('cached hashes', PM + 'proof.py Proof.__getattr__')])
prop('C08', 'A Merkle mountain range behaves as an immutable list',
     'A Merkle mountain range behaves as an immutable list of its items: construction, length, indexing, slicing, iteration in both directions, append and extend give what the same operations on a tuple give, for every length, index and slice, and item assignment and deletion are refused. Operations that return a new list leave the old one as it was.',
     'inputs histories', 'all lists, item types, indexes and slices, in any sequence of operations',
     'The tests build lists of up to a few items and slice some; off-by-one errors depend on the binary shape of the length.', [PM + 'mmr.py'],
     [('mountain merging', PM + 'mmr.py MMRInnerNode.append, _merge_trees'), ('index arithmetic', PM + 'mmr.py __getitem__ of each node')])
prop('C09', 'The commitment of a Merkle mountain range is a function of its items',
     'The commitment of a Merkle mountain range, and its serialized form, depend only on the sequence of items: every way of reaching the same items (appending, extending, slicing, joining, reading back) gives the same commitment, namely the one of the specified tree of perfect mountains over the items, and different items give different ones. A pruned range still answers for the items looked up, and only for those, with the same commitment, also after being sent.',
     'histories', 'all lists and all histories of operations that reach them; all sets of items looked up in a pruned one',
     'The tests compare a few short lists built by one route.', [PM + 'mmr.py', PM + 'proof.py'], [('canonical shape', PM + 'mmr.py is_perfect_tree, MMRInnerNode.__new__, _merge_trees')])
prop('C10', 'A merbinner tree behaves as an immutable mapping',
     'A merbinner tree behaves as an immutable mapping: construction from pairs, put (of new and of existing keys), remove, lookup, length, iteration, keys, values and items give what the same operations on a dictionary give, with missing keys raising a key error, whatever the keys have in common. Operations that return a new tree leave the old one as it was.',
     'inputs histories', 'all mappings with keys whose placements are of one length (byte strings, integers, hashed, proofs), all sequences of operations',
     'The tests use a few keys; the cases differ by where two keys first differ.', [PM + 'merbinnertree.py'],
     [('insertion and removal', PM + 'merbinnertree.py put, remove'), ('descent', PM + 'merbinnertree.py descend of each node')])
prop('C11', 'The commitment of a merbinner tree is a function of the mapping',
     'The commitment and serialized form of a merbinner tree depend only on the mapping it holds, not on the order of insertions, overwrites or removals that led there, and are the ones of the specified trie of the keys; different mappings give different commitments. A pruned tree answers presence and absence for the keys looked up, with the same commitment and also after being sent, and raises a pruned-data error rather than a wrong answer for other keys.',
     'histories', 'all mappings and all histories that lead to them; all sets of keys looked up, present and absent',
     'The tests compare two or three insertion orders of a few keys.', [PM + 'merbinnertree.py', PM + 'proof.py'], [('canonical trie', PM + 'merbinnertree.py MerbinnerInnerNode.__new__, put, remove')])
prop('C12', 'Subset test of merbinner trees is inclusion of mappings',
     'One merbinner tree is reported a subset of another exactly when every key of the first is in the second with an equal value. The answer is the same for pruned copies that contain what is needed to decide, which otherwise raise a pruned-data error rather than answer wrongly.',
     'inputs', 'all pairs of mappings, whole and pruned', 'The tests try a few pairs; the comparison walks two differently shaped trees at once.', [PM + 'merbinnertree.py'],
     [('double descent', PM + 'merbinnertree.py issubset and __issubset of each node')])
prop('C13', 'Tampered proofs never answer wrongly under the true commitment',
     'Whatever is done to the bytes or the structure of a proof, either its commitment differs from the true one (or it is refused), or every answer it gives is the true one. Two proofs with one commitment, pruned differently and however ill-formed the committed tree is, never give different answers to the same question about a list item, list length, map key or attribute.',
     'inputs', 'all alterations of proofs (bytes, swapped, spliced and relabelled children, lengths, prefixes) and all pairs of pruned copies of arbitrary trees',
     'The tests hold no adversarial proof at all.', [PM + 'proof.py', PM + 'mmr.py', PM + 'merbinnertree.py'],
     [('hash over all answers', PM + 'proof.py calc_data_hash'), ('lookup goes where the commitment says', PM + 'merbinnertree.py descend, PM mmr.py __getitem__')])
prop('C14', 'Seal commitments; a fake witness is bound to one seal and one hash',
     'Seals and witnesses of every kind commit to all their fields as specified and survive serialization, so different seals (by nonce, outpoint or kind) have different commitments. A fake seal witness is accepted for the digest it was made for and refused for every other digest, whether whole, pruned or read back.',
     'inputs', 'all seals, witnesses, digests and trips over the wire', 'Two tests with constants.', [PC + 'core/uniquebits/singleuseseal.py', PC + 'core/bitcoin.py'],
     [('seal fields', PC + 'core/uniquebits/singleuseseal.py FakeSingleUseSeal, BitcoinSingleUseSeal'), ('digest comparison', PC + 'core/uniquebits/singleuseseal.py FakeSealWitness.verify_hash')])
prop('C15', 'A Bitcoin seal witness is accepted exactly if the seal is closed over it',
     'A Bitcoin seal witness verifies exactly if the outpoint of its seal is the one spent by the proven input, and the proven input and the proven output belong to one and the same transaction. It is accepted over a digest exactly if the script of the proven output commits to that digest in one of the three forms: OP_RETURN with the digest, or pay-to-script-hash or pay-to-pubkey-hash of its hash160. One wrong bit anywhere makes it refused, and the verdicts are the same whole, pruned and read back.',
     'inputs', 'all seals, transactions, indexes, output scripts and digests', 'No test covers Bitcoin seal witnesses at all.', [PC + 'core/uniquebits/singleuseseal.py', PC + 'core/bitcoin.py'],
     [('verification', PC + 'core/uniquebits/singleuseseal.py BitcoinSealWitness.verify, verify_hash')], trust='python -O, which removes assertions, is outside the claim')
prop('C16', 'The closing template closes every seal it was made for',
     'The closing transaction template for a digest and a set of seals spends exactly the outpoints of those seals, in order, and has exactly one output committing to the digest by the chosen method, with the dust value where the output is spendable and zero otherwise. The template is a mutable transaction: completing it in place changes neither the seals nor any other template. However a wallet completes it with further inputs and outputs, the transaction yields a witness for each of those seals that is accepted for the digest.',
     'inputs configurations', 'all digests, sets of seals, methods, dust values and completions', 'No test covers the template.', [PC + 'uniquebits/singleuseseal.py', PC + 'core/uniquebits/singleuseseal.py'],
     [('template', PC + 'uniquebits/singleuseseal.py make_close_seal_tx_template')])
prop('C17', 'A globally unique map verifies exactly what its seals were closed over',
     'Closing a prefix of the globally unique map closes its seal over the specified digest of the content: of the key and value for a leaf, of the seals of the two children for an inner prefix. A closed prefix verifies exactly if its witness is accepted for that digest, so exchanging the key, the value, a child for one with another seal, or the witness for one made over other content makes verification fail. Prefixes, seals and commitments of all nodes are the specified ones, and all of this holds whole, pruned and read back.',
     'inputs', 'all maps, prefixes, keys, values, children, real and fake seals, whole, pruned and read back', 'Three tests build one small map each and check success only.', [PC + 'core/uniquebits/gumap.py'],
     [('verification', PC + 'core/uniquebits/gumap.py verify of UsedPrefix, ClosedPrefix/InnerPrefix'), ('sealed digest', PC + 'core/uniquebits/gumap.py __calc_sealed_hash')], trust='python -O is outside the claim')
prop('C18', 'Transaction proofs commit to the txid and yield its inputs and outputs',
     'The commitment of a transaction proof is a function of the transaction id alone, it gives that id even when pruned, and input, output and outpoint proofs give exactly the input, output or outpoint at their index, also after pruning and a trip over the wire. An index that is out of range is refused.',
     'inputs', 'all transactions, indexes and ways of pruning', 'No test covers transaction proofs.', [PC + 'core/bitcoin.py'],
     [('commitment to the txid', PC + 'core/bitcoin.py TxProof.calc_hash, txhash'), ('index lookups', PC + 'core/bitcoin.py TxInProof.txin, TxOutProof.txout')])
prop('C19', 'The seal tool does from end to end what its commands say',
     'Each command of the seal tool does what it says, and leaves files that the others read: a made seal is for the outpoint given with a fresh nonce, the closing transaction closes the seals given over the digest given, the witness made from a confirmed transaction is for the seal given, and verification exits with success exactly if the witness is for the given seal (and identity) and digest. Anything else (wrong seal, digest or transaction, damaged or missing file) ends with an error and non-zero status, and files that exist are never overwritten.',
     'histories', 'all histories of invocations with any step spoiled', 'No test runs the tool.', ['sus-tool.py', PC + 'uniquebits/singleuseseal.py', PC + 'core/uniquebits/singleuseseal.py'],
     [('commands', 'sus-tool.py cmd_mkseal, cmd_mkclosetx, cmd_mkwitness, cmd_verifywitness, cmd_sealinfo, cmd_witnessinfo'), ('argument parsing', 'sus-tool.py ParseCOutPointArg, ParseDigestArg')],
     ['files, standard output and exit status of the tool; requests received by a stand-in node'])
prop('C20', 'Bitcoin wire codec: exact bytes, and reading gives back the value',
     'Outpoints, inputs, outputs, transactions, block headers, blocks, compact sizes, byte and vector serializations are written as exactly the bytes the Bitcoin protocol specifies and read back equal, alone or one after another in a stream, from which exactly their own bytes are consumed.',
     'inputs', 'all values of every serializable type and all sequences of them', 'The tests decode two or three constants per type; field edges and compact size boundaries (253, 2^16, 2^32) are not crossed.', [BL + 'core/__init__.py', BL + 'core/serialize.py'],
     [('codec', BL + 'core/serialize.py Serializable, VarIntSerializer, VectorSerializer'), ('structures', BL + 'core/__init__.py stream_serialize, stream_deserialize')])
prop('C21', 'Malformed wire data is refused cleanly',
     'Decoding arbitrary bytes as any Bitcoin structure either gives the value the protocol says those bytes are, or raises a serialization error: a truncation error for every strict prefix of an encoding, and an extra-data error for trailing bytes, with what was read and what remains. No input causes any other exception, and the memory used is bounded by the data supplied, not by the lengths it claims.',
     'inputs', 'all byte strings given to the decoder of each type', 'The tests try two malformed strings.', [BL + 'core/serialize.py', BL + 'core/__init__.py'],
     [('bounded reads', BL + 'core/serialize.py ser_read'), ('trailing data', BL + 'core/serialize.py Serializable.deserialize')])
prop('C22', 'Transaction ids, block hashes and merkle roots',
     'The id of a transaction and the hash of a block are the double SHA256 of the serialized transaction and header as they stand, whenever and how often they are asked for, and the merkle tree and root of a block are Bitcoin\'s for every number of transactions.',
     'inputs histories', 'all transactions, headers, blocks and lists of ids, at any moment of the life of the object', 'The tests compare a few constants.', [BL + 'core/__init__.py', BL + 'core/serialize.py'],
     [('cached hash', BL + 'core/serialize.py ImmutableSerializable.GetHash'), ('merkle tree', BL + 'core/__init__.py CBlock.build_merkle_tree_from_txids, calc_merkle_root')])
prop('C23', 'Immutable objects never change; copies between kinds are independent',
     'An immutable outpoint, input, output, transaction, header or block never changes, whatever is done to mutable copies made from it or to the mutable objects it was made from, and assigning or deleting its fields is refused. Mutable copies are independent of each other at every depth, and the hash, id and equality of a mutable object follow its current fields. Objects of one kind are equal, with equal hash(), exactly if they serialize to the same bytes.',
     'histories', 'all sequences of copies and field changes over any number of objects', 'The tests make one copy of each kind and change one field.', [BL + 'core/__init__.py', BL + 'core/serialize.py'],
     [('copies', BL + 'core/__init__.py from_outpoint, from_txin, from_txout, from_tx'), ('immutability', BL + 'core/serialize.py ImmutableSerializable')])
prop('C24', 'Context-free transaction checks are Bitcoin\'s',
     'A transaction passes the context-free check exactly if it has inputs and outputs, is at most the maximum block size, has all output values and their running total in the money range, has no duplicate input, and is either a coinbase with a script of 2 to 100 bytes or has no null input; otherwise it is refused with a transaction check error and is never changed.',
     'inputs', 'all transactions, mutable and immutable', 'Replays a file of transactions, one case per rule; limits are exact at particular sizes and sums.', [BL + 'core/__init__.py'], [('rules', BL + 'core/__init__.py CheckTransaction')])
prop('C25', 'Block, header, proof-of-work and compact target rules are Bitcoin\'s',
     'A block passes the context-free check exactly if it is not empty or too big, its first and only its first transaction is a coinbase, every transaction is valid, it has no more than the allowed signature operations, its merkle root matches and has no duplicated transactions, and its header has sufficient proof of work within the chain\'s limit and a time not too far ahead (each of the optional checks only when asked for). Compact targets and difficulty decode as Bitcoin defines them, and failures are reported as block or header check errors.',
     'inputs configurations', 'all blocks, headers, targets, hashes, times, chains and options', 'Two constant blocks; no limit is approached.', [BL + 'core/__init__.py', BL + 'core/serialize.py'],
     [('rules', BL + 'core/__init__.py CheckBlock, CheckBlockHeader, CheckProofOfWork, GetLegacySigOpCount'), ('compact targets', BL + 'core/serialize.py uint256_from_compact')])
prop('C26', 'Scripts are built and parsed exactly',
     'A script built from opcodes, integers and byte strings, or by appending or joining, consists of exactly the shortest specified encoding of each element, and parsing it gives them back. Parsing arbitrary bytes gives exactly the operations they encode with their positions, and raises an invalid-script error exactly at an unfinished push, keeping what was read before it.',
     'inputs', 'all sequences of elements and all byte strings', 'About a dozen constants; push sizes around 75, 255 and 65535 are sampled.', [BL + 'core/script.py'],
     [('push encoding', BL + 'core/script.py CScriptOp.encode_op_pushdata, encode_op_n'), ('coercion', BL + 'core/script.py CScript.__coerce_instance, __new__, __add__'), ('parsing', BL + 'core/script.py raw_iter, __iter__')])
prop('C27', 'Script predicates and signature operation counts are Bitcoin\'s',
     'Whether a script is pay-to-script-hash, push-only, uses only canonical pushes, is unspendable or is valid, its legacy and accurate signature operation counts, and the deletion of one operation from it agree with Bitcoin\'s definitions for every byte string, including scripts that end inside a push.',
     'inputs', 'all byte strings as scripts', 'A few constants per predicate.', [BL + 'core/script.py'],
     [('predicates', BL + 'core/script.py is_p2sh, is_push_only, has_canonical_pushes, is_unspendable, is_valid'), ('counts', BL + 'core/script.py GetSigOpCount'), ('deletion', BL + 'core/script.py FindAndDelete')])
prop('C28', 'Evaluating a script gives Bitcoin\'s result',
     'Evaluating any script on any stack for any transaction input succeeds exactly when Bitcoin\'s original interpreter succeeds, and then leaves exactly the same stack: every operation, conditional, alternate stack, arithmetic, hash and signature operation, and disabled operations even in branches that are not executed. Neither the script nor the transaction is changed.',
     'programs inputs', 'all scripts, starting stacks, transactions and input indexes', 'Two files of about 500 fixed scripts, judged by success alone; the final stack is not looked at.', [BL + 'core/scripteval.py', BL + 'core/_bignum.py'],
     [('interpreter', BL + 'core/scripteval.py _EvalScript'), ('numbers', BL + 'core/scripteval.py _CastToBigNum, _UnaryOp, _BinOp'), ('signatures', BL + 'core/scripteval.py _CheckSig, _CheckMultiSig')])
prop('C29', 'Script evaluation is total and keeps its limits',
     'Whatever the script, stack, keys and signatures, evaluation ends with success or with a script evaluation error that carries the state of execution, never with any other failure. The limits on script size, number of operations (with multisig keys counted), size of pushed data, stack and alternate stack items, size of numbers and number of multisig keys are enforced exactly: at the limit accepted, one over refused.',
     'programs inputs', 'all scripts and stacks, hostile ones included, in particular at each limit and one step past it', 'The test files hold a few cases at the limits; unhandled exceptions from hostile data are not looked for.', [BL + 'core/scripteval.py', BL + 'core/key.py'],
     [('limits', BL + 'core/scripteval.py _EvalScript, MAX_* of core/script.py'), ('errors with state', BL + 'core/scripteval.py EvalScriptError')])
prop('C30', 'Signature hashes are Bitcoin\'s, and cover what the type says',
     'The signature hash of every script, transaction, input index and hash type is the one Bitcoin computes, including code separators, the none, single and anyone-can-pay forms, unknown types and the fixed value when single has no matching output. Computing it changes neither the transaction nor the script.',
     'inputs', 'all scripts, transactions, indexes in and out of range and hash types', 'No test of its own; only reached through signatures of type all in fixed transactions.', [BL + 'core/script.py'],
     [('signature hash', BL + 'core/script.py RawSignatureHash, SignatureHash')])
prop('C31', 'Spends verify exactly if Bitcoin would accept them',
     'An input script verifies against an output script exactly when Bitcoin accepts the spend (with or without pay-to-script-hash evaluation, as asked), for standard and arbitrary scripts, with signatures of every type, and verification of a whole input against the transaction it spends checks the index, the referenced transaction and its output. Otherwise a verification error is raised, and nothing passed in is changed.',
     'inputs configurations', 'all input and output scripts, transactions, indexes and flags', 'Fixed transactions from a file; no damaged or reassigned signature of each type.', [BL + 'core/scripteval.py'],
     [('verification', BL + 'core/scripteval.py VerifyScript, VerifySignature')])
prop('C32', 'Keys and signatures are those of secp256k1',
     'The public key of a secret is the compressed or uncompressed encoding of the right curve point, public keys are reported valid exactly if they are, a signature verifies exactly if it is a valid ECDSA signature over the digest by that key, every signature made verifies and is strict DER and shared secrets agree from both sides. Damaged digests, signatures and keys are refused without failing in any other way.',
     'inputs', 'all secrets in range, public keys, digests and signatures, valid and damaged', 'One test looks at three constant public keys.', [BL + 'core/key.py'],
     [('OpenSSL calls', BL + 'core/key.py CECKey'), ('signing', BL + 'core/key.py CECKey.sign'), ('verdicts', BL + 'core/key.py CPubKey')], trust='the cryptography of the reference, checked against the library in both directions')
prop('C33', 'Key handling is memory safe and leaks nothing',
     'No use of keys, signatures or shared secrets, with any data and in any order, reads or writes memory it should not, truncates pointers, uses freed or uninitialised memory or crashes the process. Keys and other objects that are dropped give their memory back.',
     'inputs histories', 'all sequences of key operations with valid and hostile data', 'The tests run on one heap layout and see no memory error that does not crash.', [BL + 'core/key.py'],
     [('declared argument and result types', BL + 'core/key.py ctypes declarations'), ('ownership', BL + 'core/key.py CECKey.__del__, set_secretbytes, get_raw_ecdh_key')],
     ['valgrind memcheck, guarded allocations, resident memory'], trust='valgrind, and OpenSSL itself')
prop('C34', 'Base58 and Base58Check are exact and detect damage',
     'Base58 encodes every byte string, leading zeros included, to the specified text and decodes exactly the valid texts back, refusing every other text with the specific error. Base58Check accepts a text exactly if its checksum matches, gives back version and data, and refuses every text that differs in one character, in order or in length.',
     'inputs', 'all byte strings and texts', 'A file of a dozen constants.', [BL + 'base58.py'], [('codec', BL + 'base58.py encode, decode'), ('checksum', BL + 'base58.py CBase58Data')])
prop('C35', 'Addresses and secret keys name exactly what they should',
     'On every chain, an address stands for exactly one output script: scripts of the recognised forms give the right kind of address, an address gives back its script, and every other script, and texts of another chain, kind or length, are refused with the documented error. A secret key text gives back the same secret, compression and public key, whose address is the standard one.',
     'inputs configurations', 'all hashes, scripts, public keys, secrets, texts and chains', 'About ten constants on one chain.', [BL + 'wallet.py', BL + 'base58.py'],
     [('address kinds', BL + 'wallet.py CBitcoinAddress.from_bytes, P2SHBitcoinAddress, P2PKHBitcoinAddress'), ('script recognition', BL + 'wallet.py from_scriptPubKey'), ('secrets', BL + 'wallet.py CBitcoinSecret, CKey')])
prop('C36', 'Bloom filters have no false negatives and match BIP37 bit for bit',
     'Everything inserted into a bloom filter is reported contained, now and after a trip over the wire, and the filter is bit for bit the one BIP37 defines for its elements, size, number of hash functions, tweak and flags, including outpoints and the special empty and full filters; size and hash function counts follow the requested element count and rate within the protocol limits. The underlying MurmurHash3 equals the reference for every byte string and seed, and damaged filter encodings are refused.',
     'inputs histories', 'all sets of elements, filter parameters, tweaks, byte strings and seeds', 'Three constant filters and twenty hash values.', [BL + 'bloom.py'], [('hash', BL + 'bloom.py MurmurHash3'), ('filter', BL + 'bloom.py CBloomFilter')])
prop('C37', 'Peer-to-peer messages: exact frames, and damaged ones refused',
     'Every message is written as exactly the frame and body the protocol specifies, and reading a stream gives the same messages one after another, however the stream is cut into pieces, consuming exactly their bytes. Frames with the wrong network, a wrong checksum, or a body cut short are refused with an error and never give a message.',
     'inputs fault_sequences', 'all messages of all kinds on all networks, streams of them, short reads, and damage to frames', 'One round trip of a default message per kind.', [BL + 'messages.py', BL + 'net.py'],
     [('framing', BL + 'messages.py MsgSerializable.to_bytes, stream_deserialize'), ('bodies', BL + 'messages.py msg_*, BL net.py CAddress, CInv, CBlockLocator, CAlert')])
prop('C38', 'The RPC client transmits and converts values exactly',
     'Each remote call sends exactly the method and parameters asked for, with credentials and request ids as specified and to the host, port and path of the configured service, and every value is converted exactly in both directions: amounts to whole satoshis however the reply writes them, hashes in the usual byte order, transactions, blocks, addresses and unspent outputs to the objects they describe. An error reply raises an RPC error with its code and message (or the documented lookup error), and configuration files are read as documented.',
     'inputs configurations', 'all calls, amounts, hashes, objects, replies, errors and configuration layouts', 'The RPC tests are disabled (they would need a node).', [BL + 'rpc.py'],
     [('transport', BL + 'rpc.py RawProxy._call, _batch, _get_response'), ('conversions', BL + 'rpc.py Proxy'), ('configuration', BL + 'rpc.py RawProxy.__init__')], ['requests received by a stand-in node'])
prop('C39', 'Selecting a chain switches everything that depends on it',
     'After any history of chain selections, everything that depends on the chain (genesis block, proof-of-work limit, halving interval, address and secret prefixes, message start bytes, network and RPC ports) is that of the chain last selected and equals the published parameters, mainnet if none was. Selecting an unknown name raises a value error and leaves the selection as it was.',
     'histories configurations', 'all sequences of selections of known and unknown names', 'No test selects a chain other than to switch an address test to it.', [BL + '__init__.py', BL + 'core/__init__.py', BL + 'wallet.py', BL + 'rpc.py'],
     [('selection', BL + '__init__.py SelectParams, core/__init__.py _SelectCoreParams'), ('constants', BL + '__init__.py *Params, core/__init__.py Core*Params')])
prop('C40', 'Threads may share immutable values',
     'Any number of threads may hash, compare, serialize, read, prune, copy, extend and verify the same proofs, trees, witnesses, transactions, blocks, scripts and keys at the same time, each getting exactly the result it would get alone, under every interleaving. No thread is blocked for ever or made to fail by the others.',
     'schedules', 'all interleavings of any number of threads over the same fresh values (each thread pruning its own view)', 'The tests are single-threaded.', [PM + 'proof.py', PM + 'mmr.py', PM + 'merbinnertree.py', BL + 'core/serialize.py', BL + 'core/__init__.py', BL + 'core/key.py', BL + 'core/scripteval.py'],
     [('lazily computed and cached hashes', PM + 'proof.py Proof.__getattr__, BL core/serialize.py ImmutableSerializable.GetHash'), ('no shared scratch state', BL + 'core/script.py, core/scripteval.py, core/key.py')])
prop('C41', 'What is printed is exact',
     'The printed form of a script, outpoint, input, output, transaction or block header, mutable or not, is an expression that evaluates to the same value, byte for byte, with amounts taken as exact decimals (pushes become the shortest ones, and an invalid push is reported after everything before it). The same goes for addresses, secrets, bit arrays and tags; a proof prints its commitment whether whole or pruned. Printing never fails for anything that can be read from the wire and changes nothing.',
     'inputs histories', 'all scripts, transactions and their parts, headers, blocks, peer messages, addresses, bit arrays, tags, ranges and proofs, printed before and after changes and pruning',
     'The tests print a dozen scripts and two outpoints; no test evaluates what was printed.',
     [BL + 'core/__init__.py', BL + 'core/script.py', BL + 'messages.py', BL + 'net.py', BL + 'base58.py', PM + 'bits.py', PM + 'proof.py', PM + 'mmr.py'],
     [('printed scripts', BL + 'core/script.py CScript.__repr__, CScriptOp.__repr__'), ('printed transactions', BL + 'core/__init__.py __repr__ of each class'), ('printed messages', BL + 'messages.py, net.py __repr__ of each class')],
     ['repr() and str() of public objects'])
prop('C42', 'Script numbers and big-number encodings are exact',
     'Integers of any size and sign encode to the shortest signed little-endian form, and to the corresponding length-prefixed big-endian form, and decode back to the same integer; byte strings, also not shortest and negative zero, decode to the number they stand for.',
     'inputs', 'all integers and byte strings', 'Reached only through a few small numbers in scripts.', [BL + 'core/_bignum.py'], [('encodings', BL + 'core/_bignum.py bn2mpi, mpi2bn, bn2vch, vch2bn')])
prop('C43', 'Hex and money helpers are exact',
     'The hex helpers convert every byte string to lower-case hex and back, in either byte order, and refuse text that is not hex with a value error. Every non-negative amount is printed as its exact decimal value in whole coins with at least one and at most eight decimals, and the money range is zero to 21 million coins inclusive.',
     'inputs', 'all byte strings, texts and amounts', 'A table of a dozen amounts; the hex helpers have no test.', [BL + 'core/__init__.py'], [('helpers', BL + 'core/__init__.py x, lx, b2x, b2lx, str_money_value, MoneyRange')])
prop('C44', 'The example programs do what they document, end to end',
     'The programs that come with the bitcoin library compose its parts correctly. The bootstrap maker writes, for every chain, each block from the genesis block up to the height asked for exactly as the node has it, behind the magic of the network and its length, and stops with a failure status, with nothing but whole blocks written, if the node fails. The timestamp maker sends for each file or digest one transaction that spends an unspent output, commits to the digest, pays at least the fee rate for its final size and returns the rest. The spending programs print a transaction that spends the output named to the address named and that any node accepts. The message printer prints correctly framed messages.',
     'inputs histories', 'all chains, networks and heights; all files, digests, wallets and signature sizes; all keys, outputs and destinations; node failures at any request',
     'No test runs any of the programs.',
     [BL[:-8] + 'examples/' + n for n in ('make-bootstrap-rpc.py', 'timestamp-op-ret.py', 'spend-p2pkh-txout.py', 'spend-p2sh-txout.py', 'msg-serializable.py')] + [BL + 'rpc.py', BL + 'wallet.py', BL + 'core/script.py', BL + 'core/__init__.py'],
     [('node interface', BL + 'rpc.py Proxy'), ('signing', BL + 'wallet.py CBitcoinSecret, core/script.py SignatureHash'), ('verification', BL + 'core/scripteval.py VerifyScript')],
     ['output and exit status of the programs', 'requests received by the stand-in node'])

TECH = {
    'C33': 'runtime monitoring: valgrind memcheck, guarded allocator, leak watch',
    'C40': 'runtime monitoring: threads with injected delays, online oracle, interleavings recorded',
    'C37': 'runtime monitoring with injected faults: independent encoder as online oracle',
    'C38': 'runtime monitoring: recorded requests against an independent specification, stand-in node',
    'C44': 'runtime monitoring: recorded program runs and requests against an independent specification, stand-in node',
    'C19': 'runtime monitoring: recorded histories of tool runs against an independent specification',
    'C13': 'runtime monitoring: adversarial workloads, truth and non-contradiction oracles',
    'C29': 'runtime monitoring: boundary workloads, totality monitor, reference interpreter',
}
DEFAULT = 'runtime monitoring: online oracle (independent model) over random and boundary workloads'


def main():
    with open(V + '/properties.jsonl', 'w') as fd:
        for p in P:
            fd.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech'],
                                                      observe_at=p['observe'] or ['results and exceptions of the public functions and methods'],
                                                      hook_needed=None))) + '\n')
    checks = []
    for p in P:
        trust = 'Every execution observed agreed with an independent model written from the specification; says nothing of executions not reached. Trusts CPython and that model.'
        if p['trust']:
            trust += ' Also: ' + p['trust'] + '.'
        checks.append(dict(property=p['id'], quick_cmd='python3 run_check.py %s --quick' % p['id'], thorough_cmd='python3 run_check.py %s --thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=TECH.get(p['id'], DEFAULT), level='exploration', level_note=trust))
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[],
             notes='No hooks in /repo: the monitors wrap the real code from outside. See DESIGN.md; genuine defects are in KNOWN_FINDINGS.')
    with open(V + '/MANIFEST.json', 'w') as fd:
        json.dump(m, fd, indent=1)
        fd.write('\n')


main()
