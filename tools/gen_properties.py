"""Writes properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
PC='proofchains/core/'; PM='lib/python-proofmarshal/proofmarshal/'; BT='lib/python-bitcoinlib/bitcoin/'
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))
I=['inputs']; IP=['inputs','programs']; IH=['inputs','histories']

p('C01','A Bitcoin seal witness ties the seal to the transaction that spent it',
  "Verifying a Bitcoin seal witness succeeds exactly when the transaction input it points at spends the very outpoint named by its seal and its input proof and its output proof refer to the same transaction. In every other case verification fails with an exception.",
  I,'every witness object, including adversarial ones decoded from bytes',
  'No existing test calls the witness verification at all; the quantifier is over adversarial witnesses.',
  [PC+'uniquebits/singleuseseal.py',PC+'bitcoin.py'],[('BitcoinSealWitness.verify',PC+'uniquebits/singleuseseal.py')],['BitcoinSealWitness.verify'])
p('C02','A witness accepts a digest only if the closing output commits to it',
  "Checking a digest against a Bitcoin seal witness succeeds exactly when the digest is 32 bytes long and the script of the witness's output is byte-for-byte one of the three closing scripts for that digest: OP_RETURN digest, pay-to-script-hash of HASH160(digest), or pay-to-pubkey-hash of HASH160(digest). Checking a digest against a fake witness succeeds exactly when the digest equals the hash the fake seal committed to. Otherwise an exception is raised.",
  I,'every (witness, digest) pair','The tests only ever present one matching OP_RETURN digest and one matching fake seal; no mismatch is tried.',
  [PC+'uniquebits/singleuseseal.py'],[('BitcoinSealWitness.verify_hash',PC+'uniquebits/singleuseseal.py'),('FakeSealWitness.verify_hash',PC+'uniquebits/singleuseseal.py')],['verify_hash'])
p('C03','Closing transactions are built so that the verifier accepts them',
  "For every supported closing method, the transaction built to close a set of seals over a digest has exactly one input per given seal, in the given order, spending that seal's outpoint, and exactly one output whose script is one of the scripts the witness verifier accepts for that same digest. The default method is OP_RETURN; value-bearing methods carry the requested dust value and OP_RETURN carries none.",
  I,'every digest, seal list and method','No test builds a closing transaction.',
  ['proofchains/uniquebits/singleuseseal.py',PC+'uniquebits/singleuseseal.py'],[('make_close_seal_tx_template','proofchains/uniquebits/singleuseseal.py'),('BitcoinSealWitness.verify_hash',PC+'uniquebits/singleuseseal.py')],['make_close_seal_tx_template'])
p('C04','Unique-map nodes verify only over the contents their seal was closed on',
  "A leaf of a globally unique map verifies only if its witness accepts the tagged hash of its key followed by its value, and an inner node only if its witness accepts the tagged hash of the left child's seal followed by the right child's seal. Leaves and inner nodes use different tags, both derived from the tag of the map, and closing a prefix asks for a witness over exactly the hash that verification later recomputes.",
  I,'every map, key, value, child and witness','The leaf test is shadowed by a second test of the same name and never runs; no mismatching contents are tried.',
  [PC+'uniquebits/gumap.py'],[('LeafPrefix / InnerPrefix from_unused_prefix, verify',PC+'uniquebits/gumap.py')],['verify','from_unused_prefix','from_children'])
p('C05','Input and output proofs stay inside their transaction',
  "Verification of a transaction-input (output) proof succeeds exactly when its index is non-negative and smaller than the number of inputs (outputs) of its transaction. The input (output) handed out by the proof is the one at that index of the transaction's input (output) list.",
  I,'every proof object and index','No test verifies an input or output proof or uses an index other than 0.',
  [PC+'bitcoin.py'],[('TxInProof.verify, TxInProof.txin, TxOutProof.verify, TxOutProof.txout',PC+'bitcoin.py')],['verify','txin','txout'])
p('C06','The Bitcoin txid is always recoverable from a transaction proof hash',
  "The hash of a transaction proof is the 32-byte txid of its transaction combined with a fixed 32-byte pad in a way that is undone exactly by the proof's txid accessor. The txid is available from the proof even after pruning, without access to the transaction.",
  I,'every transaction, pruned or not','No test touches the txid accessor or a pruned transaction proof.',
  [PC+'bitcoin.py'],[('TxProof.calc_hash / TxProof.txhash / TX_HASH_XOR_PAD',PC+'bitcoin.py')],['TxProof.hash','TxProof.txhash'])
p('C07','A proof hash commits to its class tag and to every serialized field',
  "The hash of a proof object covers every declared serialized field, each exactly once and in declaration order (nested hashed objects through their own hash, other values through their serialization), and then the tag of the object's own class. Equality and dictionary hashing of proofs are decided by that hash alone, and nothing else (caches, pruning bookkeeping) influences it.",
  IP,'every proof class and every field value','Tests compare a handful of digests of two-field classes; they cannot see a field that a new class or a rewritten loop leaves out.',
  [PM+'proof.py',PM+'serialize.py',PC+'bitcoin.py',PC+'uniquebits/singleuseseal.py',PC+'uniquebits/gumap.py',PM+'merbinnertree.py',PM+'mmr.py'],[('Proof.calc_data_hash / Proof.calc_hash / __eq__ / __hash__',PM+'proof.py'),('HashTag.__call__',PM+'serialize.py')],['Proof.hash','Proof.data_hash'])
p('C08','Every hashed class has its own domain-separation tag',
  "No two concrete proof classes, variants, or auxiliary content hashes of the library share a hash tag, and every concrete proof class that is hashed by tag has one of its own. Tags of variants and of map contents are derived from the tag of the class they belong to by a tagged hash over both tags, so equal field values in different classes or maps never give equal hashes.",
  ['programs'],'every pair of classes in the library','Tests check individual digests, never all pairs of classes.',
  [PM+'serialize.py',PM+'proof.py',PM+'merbinnertree.py',PM+'mmr.py',PC+'bitcoin.py',PC+'uniquebits/singleuseseal.py',PC+'uniquebits/gumap.py'],[('HashTag literals, HashTag.derive, VarProof.declare_variant',PM+'serialize.py')],['HASHTAG','SUB_HASHTAG'])
p('C09','Proofs, trees and bit strings never change after construction',
  "Assigning or deleting an attribute of a proof object always raises TypeError, and no operation of the library changes a field of an existing proof, tree node or bit string: every update returns a new object. The only things ever added to an existing proof are its lazily computed hashes and, on a pruned view, the attributes fetched from its original.",
  IH,'every sequence of operations on every object','Tests try one assignment and one deletion on one class.',
  [PM+'proof.py',PM+'bits.py',PM+'mmr.py',PM+'merbinnertree.py'],[('Proof.__setattr__/__delattr__; object.__setattr__ call sites; Bits slots',PM+'proof.py')],['Proof','Bits','MerkleMountainRange','MerbinnerTree'])
p('C10','Pruning keeps the hash, tracks use, and never leaks or alters the original',
  "Pruning a proof returns a new fully pruned view of the same class, leaves the original untouched, and the view has the original's hash without unpruning anything. An attribute read through a view comes from the original, is itself a pruned view if it is a proof, is remembered, and marks the view as no longer fully pruned. A missing field of a proof that was received pruned raises the dedicated pruning error, and a fully pruned proof serializes to its data hash only. A proof any part of which has been pruned counts as pruned.",
  IH,'every proof, pruning state and access sequence','Tests walk two small hand-made proofs; the quantifier is over every class and access history.',
  [PM+'proof.py'],[('Proof.prune / __getattr__ / calc_data_hash / calc_hash / ctx_serialize / ctx_deserialize',PM+'proof.py')],['prune','attribute access','serialize'],
  [('orig instance reference','the proof a view was pruned from',PM+'proof.py')])
p('C11','Only values accepted by the field serializers enter a proof',
  "Constructing a proof checks every declared field with that field's own checker before the field becomes visible. The checkers raise the serializer type error for a value of the wrong class and the serializer value error for a length or number out of range, and accept everything else: booleans, fixed- and variable-length bytes, bounded unsigned integers, bit strings, transactions, outpoints and members of a union.",
  I,'every value offered for every declared field','Tests try a few values per serializer; transaction, outpoint, bit-string and union checkers are never given a bad value.',
  [PM+'serialize.py',PM+'proof.py',PM+'bits.py',PC+'bitcoin.py'],[('check_instance implementations; Proof.__new__',PM+'proof.py')],['Proof.__new__','check_instance'])
p('C12','Proof encoders and decoders agree on the byte layout',
  "For every serializer of the proof library the decoder reads exactly the primitives the encoder writes, in the same order, with the same lengths and for the same fields, and union decoding maps an index to the class the encoder wrote that index for. Decoders enforce the same bounds on integers and byte lengths as the checkers do for encoding, and reject booleans other than the two legal bytes, union indexes out of range and bit strings with non-zero padding.",
  I,'every encodable value and every byte string offered to a decoder','Tests round-trip a few values per serializer; several serializers (bit strings, transactions, outpoints, inner nodes) are never decoded.',
  [PM+'serialize.py',PM+'proof.py',PM+'bits.py',PC+'bitcoin.py'],[('ctx_serialize / ctx_deserialize pairs',PM+'serialize.py')],['serialize','deserialize'])
p('C13','Truncated or padded input is never accepted as a complete object',
  "Every decoder of both libraries obtains its input only through length-checked reads that raise the library's truncation error when fewer bytes are available than asked for, and that refuse oversized requests before reading. Decoding a Bitcoin structure from bytes raises the extra-data error when bytes are left over, unless padding was explicitly allowed.",
  I,'every byte string and every prefix of it','Tests truncate two serializers; the property quantifies over all decoders and all truncation points.',
  [BT+'core/serialize.py',BT+'core/__init__.py',BT+'net.py',BT+'messages.py',BT+'bloom.py',PM+'serialize.py'],[('ser_read, Serializable.deserialize, StreamDeserializationContext.fd_read',BT+'core/serialize.py')],['deserialize','stream_deserialize'])
p('C14','Merbinner tree nodes place and look up children by the same bit',
  "An inner node of a merbinner tree is built with the longest common prefix of its two children, refuses children that are not nodes of the tree, and puts the child whose next bit is 1 on the right. Lookup, update, removal and the subset test descend into exactly that side for that bit, and lookup returns a value only after comparing the key itself.",
  I,'every tree shape, key and bit position','Tests use a few hand-picked small trees; agreement between constructor, descent and subset test on every bit is not enumerated.',
  [PM+'merbinnertree.py'],[('InnerNode.__new__ / descend / _MerbinnerTree__issubset, MerbinnerTree.__getitem__/remove',PM+'merbinnertree.py')],['MerbinnerTree'])
p('C15','Tree commitments include length, prefix and both children',
  "Every inner node of a Merkle mountain range carries the sum of the lengths of its two children, every leaf has length one and the empty node length zero, and that length is part of what the node's hash commits to. Every inner node of a merbinner tree commits to its prefix. Left and right children keep their order in iteration, length, serialization and hashing.",
  I,'every tree and every node','Tests check a few lengths and digests of small trees.',
  [PM+'mmr.py',PM+'merbinnertree.py'],[('inner node constructors, SERIALIZED_ATTRS, __len__, __iter__',PM+'mmr.py')],['MerkleMountainRange','MerbinnerTree'])
p('C16','Bitcoin consensus structures encode and decode in the protocol layout',
  "Outpoints, inputs, outputs, transactions, block headers and blocks are written in the Bitcoin protocol's field order, widths, signedness and little-endian byte order, and their decoders read the same layout back into the same fields. A transaction id is the double SHA-256 of the transaction's encoding and a block hash that of the 80-byte header alone.",
  I,'every object and every field value','A few fixed vectors cannot expose a field written with the wrong width or signedness for values outside the vectors.',
  [BT+'core/__init__.py',BT+'core/serialize.py'],[('stream_serialize / stream_deserialize pairs; VarIntSerializer; VectorSerializer',BT+'core/__init__.py')],['serialize','deserialize','GetHash'])
p('C17','No peer message is dispatched before magic and checksum are verified',
  "A peer-to-peer message is decoded only after its network magic matches and the first four bytes of the double SHA-256 of exactly the announced payload match the header checksum; otherwise ValueError is raised. The command that selects the decoder is what precedes the first NUL of the header's twelve command bytes. A payload length that is negative or larger than the size limit is rejected before any payload is read. The encoder emits magic, the zero-padded 12-byte command, payload length and that same checksum.",
  I,'every byte string offered as a message','One invalid message is tested; checksum, length and command handling are not varied.',
  [BT+'messages.py'],[('MsgSerializable.stream_deserialize / to_bytes',BT+'messages.py')],['MsgSerializable.from_bytes','to_bytes'])
p('C18','Every peer message type is registered and its codec is symmetric',
  "Every message class of the library is reachable from the command table under its own distinct command string of at most 12 bytes, and decoding a message of that command yields an instance of that class. For every message and network structure the decoder reads the fields the encoder writes, in the same order and with the same widths, signedness and byte order. Messages and structures made by default share no lists.",
  IP,'every message class and every field value','Tests round-trip default-constructed messages only, and never alerts, inventories or bloom filters with content.',
  [BT+'messages.py',BT+'net.py',BT+'bloom.py',BT+'core/serialize.py'],[('msg_ser / msg_deser pairs, msg_classes, messagemap',BT+'messages.py')],['to_bytes','from_bytes'])
p('C19','Immutable Bitcoin objects cannot change and never serve a stale hash',
  "Assigning or deleting an attribute of an immutable Bitcoin structure raises, and immutable transactions and blocks hold tuples of immutable copies, never the caller's mutable parts. Hash values are cached only on immutable objects; every mutable variant recomputes its hash from its current contents. Converting between mutable and immutable variants copies every field, and mutable transactions made by default share no lists.",
  IH,'every mutation history and every conversion','Tests convert no mutable transaction with mutable inputs and mutate no object after hashing it, apart from two cases.',
  [BT+'core/serialize.py',BT+'core/__init__.py'],[('ImmutableSerializable, __make_mutable, from_tx/from_txin/from_txout/from_outpoint',BT+'core/__init__.py')],['GetHash','from_tx'])
p('C20','Transaction checks enforce exactly the context-free consensus rules',
  "The transaction check accepts a transaction exactly when it has at least one input and one output, its encoding is at most 1,000,000 bytes, every output value and every running total lies within 0 and 21,000,000 coins, no two inputs spend the same outpoint, a coinbase script is 2 to 100 bytes long, and no input of any other transaction is null. Every rejection is the transaction check error.",
  I,'every transaction','Vectors cover one point per rule; boundaries and combinations are not enumerated.',
  [BT+'core/__init__.py'],[('CheckTransaction, MoneyRange',BT+'core/__init__.py')],['CheckTransaction'])
p('C21','Block headers are accepted only with sufficient work and a sane time',
  "A proof of work is accepted exactly when the decoded target is positive, does not exceed the limit of the selected chain, and the hash as a little-endian number does not exceed the target. A header is accepted exactly when its proof of work is (unless explicitly waived) and its timestamp is at most two hours after the given or current time.",
  I,'every header, target and clock value','Vectors use a handful of real headers.',
  [BT+'core/__init__.py',BT+'core/serialize.py'],[('CheckProofOfWork, CheckBlockHeader',BT+'core/__init__.py')],['CheckProofOfWork','CheckBlockHeader'])
p('C22','Block checks enforce every context-free block rule',
  "A block is accepted only if its header is accepted, it has at least one transaction and at most 1,000,000 bytes, its first and only its first transaction is a coinbase, every transaction including the coinbase passes the transaction check, no transaction id repeats among the rest, the signature operations of all transactions together do not exceed the limit, and, unless waived, its Merkle root matches its transactions. The Merkle tree of a block, constructed or decoded, is that of its transactions. A block satisfying all of these is not rejected.",
  I,'every block','Vectors cover a few real and a few broken blocks; none has an invalid coinbase or too many signature operations.',
  [BT+'core/__init__.py'],[('CheckBlock, GetLegacySigOpCount',BT+'core/__init__.py')],['CheckBlock'])
p('C23','Invalid scripts, transactions and blocks fail only as validation errors',
  "Whatever bytes a peer supplies as scripts, transactions or blocks, script evaluation and verification, signature checks, and transaction and block checks report invalidity only through the validation error hierarchy. Script parsing errors never escape from them as another exception class.",
  I,'every script, transaction and block','Tests feed known-invalid vectors and accept any matching exception.',
  [BT+'core/scripteval.py',BT+'core/script.py',BT+'core/__init__.py'],[('EvalScript exception translation, GetSigOpCount, err_raiser',BT+'core/scripteval.py')],['EvalScript','VerifyScript','VerifySignature','CheckTransaction','CheckBlock'])
p('C24','No script opcode touches stack items that are not there',
  "Every opcode of the script interpreter checks that the main or alternate stack holds at least as many items as it reads, removes or rearranges, before doing so, and fails with the missing-arguments or invalid-arguments evaluation error otherwise. No script can make the interpreter fail with an index error or silently use the wrong item.",
  I,'every script and initial stack','Script vectors try a few underflows; the property quantifies over every opcode and stack depth.',
  [BT+'core/scripteval.py'],[('_EvalScript opcode branches, check_args, _UnaryOp, _BinOp, _CheckMultiSig',BT+'core/scripteval.py')],['EvalScript'])
p('C25','Script resource limits and control-flow balance always apply',
  "Evaluation always fails for a script longer than 10,000 bytes, a pushed item longer than 520 bytes, more than 201 non-push opcodes (multisig keys counted), a disabled opcode even in a branch not taken, or more than 1,000 items on both stacks together after any opcode. Conditionals must be balanced: ELSE or ENDIF without IF and an unclosed IF are errors, and opcodes in a branch not taken have no effect on the stacks. Numeric operands longer than 4 bytes are rejected.",
  I,'every script','Vectors probe single points of each limit; the stack limit after pushes is never probed.',
  [BT+'core/scripteval.py',BT+'core/script.py'],[('_EvalScript guards, DISABLED_OPCODES, MAX_* constants, _CastToBigNum',BT+'core/scripteval.py')],['EvalScript'])
p('C26','The opcode table matches the protocol and every opcode is handled',
  "Every opcode name denotes the byte value the Bitcoin protocol assigns it, names and values convert back and forth consistently, and the disabled set is exactly the protocol's. Every enabled opcode has an evaluation rule, arithmetic and stack opcodes compute their protocol meaning, and every other opcode is rejected when executed.",
  IP,'every opcode byte','Script vectors leave several opcodes untested in at least one operand configuration.',
  [BT+'core/script.py',BT+'core/scripteval.py'],[('OP_* constants, OPCODE_NAMES, OPCODES_BY_NAME, DISABLED_OPCODES, _ISA_UNOP/_ISA_BINOP, _EvalScript dispatch',BT+'core/script.py')],['EvalScript','CScriptOp'])
p('C27','A spend verifies only if its scripts leave a true value, P2SH included',
  "Script verification succeeds only if evaluating the signature script and then the public key script on the same stack succeeds and leaves a true value on top, and, when pay-to-script-hash is enabled and applies, the signature script is push-only and the redeem script it carries evaluates on the stack the signature script left, to a true value. Signature verification of a spend additionally requires an input index in range, an existing previous output, and that the previous output's transaction id is the one the input names.",
  I,'every script pair, flag set, transaction pair and index','The valid-transaction vectors stop at their first failure, and spends of transactions are not verified by any test.',
  [BT+'core/scripteval.py'],[('VerifyScript, VerifySignature',BT+'core/scripteval.py')],['VerifyScript','VerifySignature'])
p('C28','Signature hashes cover what the hash type says and leave the inputs alone',
  "Computing a signature hash never modifies the transaction or script it is given. It commits to the given script at the signed input and to empty scripts elsewhere, to no outputs for NONE, to the outputs up to the signed index with earlier ones blanked for SINGLE, with the other inputs' sequence numbers zeroed in both cases, to the signed input only for ANYONECANPAY, and always to the hash type itself. An index past the inputs, or past the outputs for SINGLE, gives the fixed value one with an error, which the checked variant turns into ValueError.",
  I,'every transaction, input index, script and hash type','No hash-type test exists in the stable suite besides the script vectors.',
  [BT+'core/script.py'],[('RawSignatureHash, SignatureHash',BT+'core/script.py')],['RawSignatureHash','SignatureHash'])
p('C29','Script pushes are encoded minimally and parsed without overrun',
  "Data appended to a script is encoded with the shortest push opcode for its length, small integers from -1 to 16 with their one-byte opcodes, and the parser reads each push form with the length width the encoder used. Parsing a script in which a push length or push data is cut off raises the script error instead of yielding short data, and the push-only, canonical-push and validity tests report False for such scripts.",
  I,'every data length and every byte string parsed as a script','Tests try lengths near two of the thresholds and a few truncations.',
  [BT+'core/script.py'],[('CScriptOp.encode_op_pushdata / encode_op_n, CScript.raw_iter, is_push_only, has_canonical_pushes, is_valid',BT+'core/script.py')],['CScript'])
p('C30','Addresses and keys are built from text only after checksum and version checks',
  "Base58Check text yields an object only if its four checksum bytes equal the start of the double SHA-256 of version and payload, and the printed form carries that same checksum. The address class always matches the version prefix of the selected chain, unknown versions and wrong versions for a class are errors, and each address class writes exactly the script form it recognizes. A private key text is accepted only with the private key version.",
  I,'every text, script and selected chain','The wallet tests are excluded from the stable suite; base58 tests cover one good and one bad string.',
  [BT+'base58.py',BT+'wallet.py'],[('CBase58Data.__new__/__str__, CBitcoinAddress.from_bytes, to_/from_scriptPubKey, CBitcoinSecret.__init__',BT+'wallet.py')],['CBitcoinAddress','CBitcoinSecret'])
p('C31','Selecting a chain sets every parameter consistently',
  "After selecting mainnet, testnet or regtest by name, the general and the consensus parameters in force are the same object, carry that chain's name, magic, ports, prefixes, genesis block, halving interval and work limit, all of them set, and no parameter of another chain remains in force. Selecting an unknown name raises ValueError and changes nothing.",
  ['configurations','histories'],'every chain name and every sequence of selections','No test selects a chain other than through single wallet cases.',
  [BT+'__init__.py',BT+'core/__init__.py'],[('SelectParams, _SelectCoreParams, *Params classes',BT+'__init__.py')],['SelectParams'])
p('C32','A signature counts as valid only on an explicit success from the crypto library',
  "Signature verification returns true only when the crypto library reports exactly success; its error result and its failure result both count as invalid. A public key is reported fully valid only if the crypto library accepted it, signing refuses anything but a 32-byte digest and never returns a signature the library did not report as made, and key setup failures raise.",
  ['inputs','fault_sequences'],'every key, digest, signature and crypto library outcome','Tests use well-formed keys and signatures and never see the library\'s error result.',
  [BT+'core/key.py',BT+'core/scripteval.py'],[('CECKey.verify / sign / set_pubkey, CPubKey.__new__, _CheckSig',BT+'core/key.py')],['CPubKey.verify','CECKey.sign'])
p('C33','RPC errors always surface and values cross the RPC boundary converted once',
  "An RPC call returns a result only if the server's reply has no error and has a result; otherwise, and when the reply cannot be read, an exception is raised, and lookups that fail raise IndexError. Transaction and block hashes are byte-reversed exactly once in each direction, raw transactions, blocks and scripts are hex-converted, and amounts the server reports are parsed as decimals and scaled to integer base units without passing through floating point.",
  ['inputs','fault_sequences'],'every call, reply and error reply','The RPC tests are commented out; the stable suite only imports the module.',
  [BT+'rpc.py'],[('RawProxy._call/_get_response, Proxy methods',BT+'rpc.py')],['Proxy'])
p('C34','A bloom filter never forgets an inserted element',
  "Insertion sets, and membership tests, exactly the same bits for the same element: the same hash functions, byte index and bit mask, for every hash function of the filter. A filter that insertion treats as full is one that matches everything, an element is reported absent only when one of its bits is clear, and outpoints are treated alike on both sides.",
  IH,'every element and insertion history','Tests insert a few fixed elements.',
  [BT+'bloom.py'],[('CBloomFilter.insert / contains / bloom_hash',BT+'bloom.py')],['CBloomFilter'])
p('C35','No library operation dies on an unresolved name or a malformed internal call',
  "Every name, module attribute and class-level attribute used anywhere in the libraries and the command-line tool is defined, on every path including error paths, and every call of a library function from inside the library matches that function's parameters. No input can make an operation fail because the code refers to something that does not exist.",
  IP,'every path of every function','Tests execute only part of the code; error paths and rarely used constructors are never run.',
  ['sus-tool.py',PC+'bitcoin.py',PM+'serialize.py',BT+'core/__init__.py',BT+'bloom.py',BT+'net.py'],[('all modules','all functions')],['every public function'])
p('C36','The seal tool writes only fresh files and witnesses only real closings',
  "The seal tool never overwrites an existing file: everything it writes is opened in exclusive-creation mode. A seal it makes carries the given outpoint and a fresh 16-byte nonce from the system's random source, what is no outpoint makes no seal, a closing transaction is asked of the node of the selected network, a witness is written only for a seal whose outpoint the transaction really spends, with the proof of that input and of output 0, and every digest, seal file or seal hash given to witness verification is enforced.",
  IH,'every command line and file state','The tool has no tests at all.',
  ['sus-tool.py'],[('cmd_mkseal, cmd_mkclosetx, cmd_mkwitness, cmd_verifywitness','sus-tool.py')],['sus-tool'])
# not decided statically
p('C40','Bit strings behave as immutable sequences of bits',
  "Indexing, slicing, concatenation, inversion, prefix tests, common prefixes, equality and ordering of bit strings give the results of the same operation on the tuple of their bits.",
  I,'every bit string and operation','Tests use fixed strings.',[PM+'bits.py'],[('Bits',PM+'bits.py')],['Bits'])
p('C41','A Merkle mountain range behaves as the list of its values',
  "Length, indexing, slicing, iteration, append and extend of a Merkle mountain range give the results of the same operation on the list of appended values, and the shape depends only on the length.",
  IH,'every list and operation sequence','Tests use lists of bounded length.',[PM+'mmr.py'],[('MerkleMountainRange',PM+'mmr.py')],['MerkleMountainRange'])
p('C42','A merbinner tree behaves as a mapping with a history-independent hash',
  "After any sequence of insertions and removals a merbinner tree holds exactly the resulting key-value pairs, and trees with equal pairs have equal hashes regardless of history.",
  IH,'every operation sequence','Tests use a few sequences.',[PM+'merbinnertree.py'],[('MerbinnerTree',PM+'merbinnertree.py')],['MerbinnerTree'])
p('C43','Base58 and script number encodings are inverse to their decodings',
  "Decoding the base58 encoding of any bytes gives the bytes back, and decoding the script-number encoding of any integer gives the integer back, with minimal encodings.",
  I,'every byte string and integer','Fixed vectors only.',[BT+'base58.py',BT+'core/_bignum.py'],[('encode/decode, bn2vch/vch2bn',BT+'base58.py')],['encode','decode'])
p('C44','Proof objects have exactly one accepted encoding',
  "A byte string that decodes to a proof object is exactly the encoding of that object: no trailing bytes, no non-minimal integers.",
  I,'every byte string','No test offers non-canonical input.',[PM+'serialize.py'],[('Serializer.deserialize, read_varuint',PM+'serialize.py')],['deserialize'])
p('C45','The bloom hash is MurmurHash3 and filter sizes follow the protocol formula',
  "The filter hash equals MurmurHash3 x86_32 for every seed and input, and the filter size and number of hash functions are the protocol's functions of element count and false-positive rate.",
  I,'every seed, input and parameter pair','Fixed vectors only.',[BT+'bloom.py'],[('MurmurHash3, CBloomFilter.__init__',BT+'bloom.py')],['MurmurHash3'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
