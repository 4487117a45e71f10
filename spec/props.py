NA = []
NOTES = ("Every check rebuilds a Go test binary from /repo's working tree (module 'vharness' in /verif/harness with a replace to /repo), "
         "runs it in 8 shard processes seeded from VERIF_SEED and merges the counts into evidence/<id>.json. "
         "'python3 run.py replay FILE' re-runs a recorded failure.")
FE = "circuits are evaluated on concrete values by the harness's own evaluator of gnark's API (harness/fe), cross-checked against gnark's compiled R1CS and SCS solvers on samples (check C50)"
P = []


def add(id, title, statement, for_all, why, files, mech, pkg, rule, note, assumptions=(FE,), **kw):
    P.append(dict(id=id, title=title, statement=statement, for_all=for_all, why=why, files=files, mech=mech, pkg=pkg,
                  rule=rule, note=note, assumptions=list(assumptions), **kw))


K = "circuits/gadgets/keccak/"
add("C01", "Word-level Keccak gadgets compute Keccak-256",
    "For every message that fits, the circuit hash over 64-bit words with the right block index equals Keccak-256 of the message, whatever fills the blocks after the selected one. A block index outside the range, a word that needs more than 64 bits, or a nibble above 15 cannot be satisfied.",
    "every message length 0..max blocks*136-1, every content, every filling of the unused blocks, every out-of-range index and word, the 10- and 13-block variants, several scalar fields",
    "The tests hash one 159-byte message with zero filling through one variant; the mux over block states, the 13-block variants and the rejections are never exercised.",
    [K + "keccak256.go", K + "periphery.go", "circuits/gadgets/mux/multiplexer.go"],
    [("absorb: xor of block into state through 64-bit decompositions", K + "keccak256.go"), ("one-hot selection of the state after block i", "circuits/gadgets/mux/multiplexer.go"), ("nibble recomposition into little-endian words", K + "periphery.go")],
    "keccakc", "A case is a variant, a scalar field, a message (length biased to block edges), random filling of the unused blocks and, in 2 of 5 cases, an out-of-range index or word; all are non-trivial, distinct by (variant, mode, message).",
    "Generated messages of every block count against golang.org/x/crypto/sha3; negative cases must be unsatisfied, not crash.")
add("C02", "Bit-level Keccak and in-circuit paddings compute Keccak-256",
    "For every message of admissible length, padding it in the circuit (from bits, crumbs, nibbles or bytes, with variable or constant length) gives the standard padded bit stream, and hashing that stream at the library's block index gives Keccak-256 of the message. Non-boolean bits, lengths out of the declared range or not whole bytes, oversized elements and block indices outside the declared range are rejected.",
    "every element width 1/2/4/8, every declared length range and actual length including those one byte short of a block, every tail content, 1 to 4 blocks, every declared minimum",
    "One 600-byte nibble message and one 8-byte constant one are padded by the tests; lengths around a block boundary, other widths and the selection over a range of lengths are not.",
    [K + "pad.go", K + "periphery.go", K + "keccak256_bits.go", K + "keccak256_bits_optimized.go", K + "keccakf/keccakf.go"],
    [("matrix of paddings, one row per length, muxed", K + "pad.go"), ("constant-length padding", K + "periphery.go"), ("bit permutation", K + "keccakf/keccakf.go")],
    "keccakc", "Cases: (a) padded bits through either bit hash at a drawn (min,max) and index; (b) a message through a circuit padding, 1 in 8 also hashed; (c) a random 1600-bit state through the permutation. Distinct by message and parameters; all are non-trivial.",
    "Padded bits compared with a from-the-standard padding, digests with x/crypto/sha3, the permutation with an independent keccak-f written from the specification.")
add("C03", "Off-circuit hash-input encodings agree with the circuit's conventions",
    "For every byte string, the padding helper gives the standard Keccak padding without changing its input, block counts and indices match it, and byte/bit/nibble/64-bit/128-bit regroupings are exact and reject partial groups. The circuit regroupings of bits accept exactly boolean inputs and give the same values.",
    "every byte string (all lengths below 2200 exhaustively by length, random contents), both copies of the helpers, every non-boolean bit position",
    "The tests pad one message; the two helper copies, the index arithmetic near block edges and the bit regroupings (one of which always crashed) are untested.",
    [K + "periphery.go", "common/circuits/keccak.go", "circuits/gadgets/conv/bits.go"],
    [("pad10*1 helpers", "common/circuits/keccak.go"), ("bit regrouping gadgets", "circuits/gadgets/conv/bits.go")],
    "keccakc", "A length sweep plus random byte strings (lengths biased to multiples of 136) through every helper; circuit regroupings on random bytes, 1 in 5 with a non-boolean bit. Non-trivial: every case, distinct by content.",
    "Exact comparison with straightforward reference encodings; rejections are checked too.")
add("C04", "The SHA-256 gadget equals SHA-256 for every message and write pattern",
    "However a message is split into writes, the circuit digest equals SHA-256 of the bytes written since the last reset, and asking for the digest does not disturb later writes. A written element that is not a byte cannot be satisfied.",
    "every message length (0..200 exhaustively in quick, 0..700 in thorough), every split into writes, interleaved digests and resets",
    "The gadget has no enabled test at all, only a benchmark that proves one message.",
    ["circuits/gadgets/sha256/sha256.go", "circuits/gadgets/sha256/sha256block.go", "circuits/gadgets/sha256/uint32api.go", "circuits/gadgets/sha256/bigEndian.go"],
    [("buffered block processing", "circuits/gadgets/sha256/sha256.go"), ("compression function over bit vectors", "circuits/gadgets/sha256/sha256block.go")],
    "keccakc", "A case is a message (length biased to block and length-field edges), a random split into writes, optional earlier junk and reset, an optional digest in between, 1 in 6 with a non-byte element; distinct by message and split.",
    "Compared with crypto/sha256.", over=["inputs", "histories"])
add("C05", "The SHA-512 gadget equals SHA-512 for every message and write pattern",
    "However a message is split into writes, the circuit digest equals SHA-512 of the bytes written since the last reset, and asking for the digest does not disturb later writes. A written element that is not a byte cannot be satisfied.",
    "every message length (0..280 exhaustively in quick, 0..900 in thorough), every split into writes, interleaved digests and resets",
    "The gadget has no enabled test; it is only exercised by a benchmark main.",
    ["circuits/gadgets/sha512/sha512.go", "circuits/gadgets/sha512/sha512block.go", "circuits/gadgets/sha512/uint64api.go", "circuits/gadgets/sha512/uint8api.go"],
    [("buffered block processing", "circuits/gadgets/sha512/sha512.go"), ("compression function over bit vectors", "circuits/gadgets/sha512/sha512block.go")],
    "keccakc", "A case is a message (length biased to block and length-field edges), a random split into writes, optional earlier junk and reset, an optional digest in between, 1 in 6 with a non-byte element; distinct by message and split.",
    "Compared with crypto/sha512.", over=["inputs", "histories"])
R = "circuits/gadgets/rlp/"
add("C06", "RLP list gadgets decode every well-formed list",
    "Every well-formed RLP list that fits a gadget's configuration is recognised, and the reported total length, item lengths and item contents are those of the list. This holds for the flat, header and nested variants, for any number of present items, for short and long headers, literals, empty strings and empty lists, and whatever bytes follow the list.",
    "every list of byte strings (and nested lists in the nested variant) within a configuration's sizes, the shapes the library uses for trie leaves, branches, extensions, accounts, headers and transactions, several scalar fields",
    "The only enabled test in the package compares two arrays; none of the three list decoders runs in the stable tests except inside a handful of recorded trie nodes.",
    [R + "rlp.go", R + "util.go"],
    [("prefix decoding and item shifting", R + "rlp.go"), ("item length selection and length-sum check", R + "rlp.go")],
    "rlpc", "A case is a configuration, an item count, item contents with lengths biased to the RLP edges (0, 1, 55, 56, 255, 256) and single bytes around 0x7f/0x80, nested lists in the nested variant, random bytes after the list; distinct by encoding.",
    "Encoded and expected values come from an independent RLP encoder. A lone zero byte is excluded in the nested variant, where it stands for an absent item.")
add("C07", "RLP list gadgets accept nothing that is not the list they report",
    "Whenever a list gadget reports success, the input really is a list whose items, as their headers declare them, fill it exactly, and the reported total, lengths and contents are those of that parse. A wrong outer length, a dropped or duplicated item, a changed header or a shifted boundary is never accepted.",
    "every mutation of headers, lengths, items, item counts and contents of every generated list, all three list decoders",
    "No test gives any of the decoders an input it must refuse.",
    [R + "rlp.go", R + "util.go"],
    [("length-sum check and item validity count", R + "rlp.go")],
    "rlpc", "A case is a generated list with one to three mutations (header bytes, outer length, dropped or duplicated items, items turned into 0xc0, long-length headers, random bytes, a wrong item count); distinct by resulting bytes. Accepted cases are re-parsed with the reference.",
    "The reference takes any length form (canonical or not), as the gadgets do. Inputs whose declared lengths run beyond the buffer are outside the domain.")
add("C08", "Array and selection gadgets under RLP decoding are exact",
    "Left and right shifts, sub-array extraction, multiplexing, one-hot decoding, prefix-bounded array equality, comparison, bit-length, RLP prefix decoding and Keccak-as-nibbles return exactly the defined result for every input, and a shift, index, range or length outside the permitted range cannot be satisfied.",
    "every array size 1..140, every shift and range including out-of-range ones, arbitrary field elements, every prefix byte, several scalar fields",
    "The tests evaluate each gadget on one fixed array (and most are not in the stable set); wrap-around, boundary shifts and rejections are never exercised.",
    [R + "rlp.go", R + "util.go"],
    [("barrel shifters", R + "rlp.go"), ("decoder and scalar product", R + "util.go"), ("nibble order and inline-node length", R + "util.go")],
    "rlpc", "Random sizes, shifts, selectors, ranges, arrays (differing from a random position) and messages, with weight on range edges; all 256 prefix bytes and, for each Keccak variant, every declared length around that of an inlined node exhaustively. Distinct by inputs.",
    "Reference is direct indexing. A left shift above the declared maximum but inside its bit width may be either refused or performed.")
add("C09", "Hex-to-field conversion and transaction leaf decoding give the encoded values",
    "Nibble strings convert to the number they denote at every length, split as last bytes and first byte when a full 32-byte value does not fit one field element. Decoding the trie leaf of a signed dynamic-fee transaction gives its chain id, nonce, fees, gas, recipient, value and signature, and a wrong length anywhere cannot be satisfied.",
    "every nibble string and length 0..64, every dynamic-fee transaction with up to 1990 bytes of data and an empty access list, several scalar fields",
    "There is no test of these conversions or of the transaction decoder.",
    [R + "rlp.go"],
    [("length-selected accumulation", R + "rlp.go"), ("two-level RLP decoding", R + "rlp.go")],
    "rlpc", "Random nibble strings with edge lengths; random go-ethereum dynamic-fee transactions (edge-biased values and data sizes), 1 in 4 with a wrong outer, value or transaction length. Distinct by content.",
    "Transactions are built and encoded by go-ethereum. Single-zero-byte data is excluded (it stands for an absent item).")
M = "circuits/gadgets/mpt/"
MPT_ASM = (FE, "trie nodes shorter than 32 bytes (which a trie inlines in their parents) are outside the gadgets' domain: secure tries of mainnet size have none on these paths",)
add("C10", "Every storage slot in a trie can be proved, with its value",
    "For every storage trie and every slot in it, the honest path of nodes makes the storage proof succeed, and the slot value and its length are those stored. It does so for any depth up to the maximum, any mix of branch and extension nodes, odd or even leaf paths, and whatever fills the unused layers.",
    "every trie, slot, value of 1 to 32 bytes (including single bytes below 0x80), depth 1..maximum, branch/extension sequence and filling of unused layers",
    "The storage inclusion tests do not pass and are not in the stable set, so no multi-node proof is ever evaluated; honest proofs with a zero-filled unused layer were refused.",
    [M + "mpt.go", M + "mpt_util.go", M + "eth_proof.go"],
    [("sum of per-layer verdicts against 4*depth+2", M + "mpt.go"), ("key fragments", M + "mpt.go"), ("slot value decoding", M + "eth_proof.go")],
    "mptc", "A case is a go-ethereum trie drawn around a target slot (branching positions, gaps that make extensions, sibling counts), the slot's value and the number and filling of unused layers; distinct by root and key.",
    "Tries and proofs come from go-ethereum; thorough goes to depth 9 and maximum depth 10.", assumptions=MPT_ASM)
add("C11", "No false storage value can be proved",
    "If the storage proof succeeds for a root, slot and value, then the trie with that root stores that value at that slot. No choice of nodes, fragment starts, prefix lengths, node kinds, depth or hash indices proves another value, another slot or another root.",
    "every trie, slot and false claim; prover-controlled nodes (forged from any layer down), fragment starts, prefix lengths, types, depth 1 included",
    "No test gives the proof anything false; a forged leaf with depth 1 used to be accepted under any root.",
    [M + "mpt.go", M + "mpt_util.go"],
    [("root and parent hash links", M + "mpt.go"), ("fragment, prefix and node-kind checks", M + "mpt.go"), ("leaf check", M + "mpt_util.go")],
    "mptc", "A case is a trie and one of 13 kinds of attack on an honest proof (value, key, root, self-consistent forgery below any layer, depth 1, another slot's proof, another trie, truncation, misdeclared prefixes with the key they would spell, kinds, starts); distinct by attack, root, key, value. All claims are false by construction. A sweep then takes an honest proof and changes each single nibble of root, key and value in turn.",
    "Search over structured attacks, not a proof of soundness; 1 in 20 cases first confirms that the honest proof passes.", assumptions=MPT_ASM)
add("C12", "Account proofs give exactly the account in the state trie",
    "For every account in a state trie the honest proof succeeds and yields its nonce, balance, storage root and code hash. If an account proof succeeds, the state root commits to that account under that address hash.",
    "every account (nonce up to 64 bits, balance up to 12 bytes), trie, depth and node mix; the same attacks as for storage",
    "The account inclusion test is not in the stable set; account decoding and refusals have no test.",
    [M + "eth_proof.go", M + "mpt.go", M + "mpt_util.go"],
    [("account list decoding", M + "eth_proof.go"), ("inclusion with 228-nibble values", M + "mpt.go")],
    "mptc", "Half of the cases are honest proofs of drawn accounts (edge-biased nonce and balance), half are attacks as in C11; distinct by root and key, or by attack. A sweep then changes each single nibble of state root, address hash and account in turn.",
    "Tries and proofs come from go-ethereum.", assumptions=MPT_ASM)
add("C13", "A slot is proved absent exactly when the trie does not hold it",
    "For every slot that is not in a trie, the honest path to where it ends (empty branch slot, diverging leaf, diverging extension) proves the value zero. A slot that is in the trie can never be proved absent, and an absent slot can never be proved to have a value other than zero.",
    "every trie, absent key leaving at any nibble, every kind of last node; attacks: truncated paths, misdeclared prefixes, paths begun inside the key, forged last nodes, other keys' proofs, non-zero claims",
    "Absence has no test at all; present slots could be proved absent and absent slots could be given any value.",
    [M + "mpt.go", M + "mpt_util.go"],
    [("absence at a branch or extension", M + "mpt_util.go"), ("absence at a leaf", M + "mpt_util.go"), ("selection of the absence verdict", M + "mpt.go")],
    "mptc", "A case is a trie with either an absent key and its honest path, or one of 7 kinds of attack on a present key (or a non-zero claim for an absent one); distinct by attack, root, key, value and starts.",
    "Search over structured attacks; tries come from go-ethereum.", assumptions=MPT_ASM)
add("C14", "Transaction and receipt inclusion holds exactly for nodes on the index's path",
    "For every transaction or receipt trie and index, the honest path proves that the leaf with the given hash is reached by the index's key. If the proof succeeds, the node with that hash really lies on the path of that key in the trie with that root.",
    "every trie of 1..600 entries, every index, depth 1..maximum; wrong leaf hashes, roots, keys, other indices' paths, forged layers, misdeclared kinds, starts and depth",
    "The gadget has no enabled test; honest proofs whose leaf has a path were refused and one failing check was enough to be accepted.",
    [M + "mpt.go"],
    [("sum of per-layer verdicts", M + "mpt.go"), ("public leaf hash as the last link", M + "mpt.go")],
    "mptc", "Half of the cases are honest proofs at edge-biased counts and indices, half are one of 11 kinds of attack, skipped when the attacked claim is in fact true; distinct by attack, root, key and leaf hash. A sweep then changes each single nibble of root, leaf hash and key in turn.",
    "The gadget does not look at the leaf's own content, so the claim is about the node hash. Tries come from go-ethereum.", assumptions=MPT_ASM)
add("C15", "Single trie-node checks accept exactly matching nodes",
    "The leaf, extension and branch checks reach their passing total exactly when the node is of that kind, its path (with the right prefix) equals the key fragment and its value or child reference equals the claimed one; the empty-slot check holds exactly for an empty child. Bytes after the node do not matter.",
    "every node, path of 1..64 nibbles, value, child set, nibble, claimed length and prefix, tail content, both value sizes and several key sizes",
    "The tests check a handful of recorded nodes, all valid.",
    [M + "mpt_util.go"],
    [("leaf check", M + "mpt_util.go"), ("extension check", M + "mpt_util.go"), ("branch check", M + "mpt_util.go")],
    "mptc", "A case is a node of one kind with random path, children or value, a tail (zero, hash padding, junk) and one of about ten deviations; distinct by node and claims.",
    "Expected verdicts follow from the deviation drawn.", assumptions=MPT_ASM)
add("C16", "Block header gadget gives the header's hash and fields",
    "For every header with 15, 16 or 17 fields within the size limits, the gadget accepts and returns its Keccak hash, roots, number and time. Another field count is refused, and another block index never gives the header's hash.",
    "every header (field values of every width, extra data 0..460 bytes), declared field count and block index",
    "The header hash test is not in the stable set; one recorded header is decoded by the one that is.",
    [M + "eth_proof.go", R + "rlp.go"],
    [("header list decoding", R + "rlp.go"), ("hash and field extraction", M + "eth_proof.go")],
    "mptc", "A case is a random header with edge-biased widths, 1 in 7 with a wrong field count and 1 in 7 with a wrong block index; distinct by hash.",
    "Headers are encoded and hashed by go-ethereum. Times and gas up to 32 bits, base fee up to 64 bits.")
add("C17", "The in-circuit transaction index key is the RLP of the index",
    "For every index below 65536 the gadget gives the nibbles of the index's RLP encoding, zero padded; any other field element is refused.",
    "all 65536 indices (exhaustively) and random larger field elements, several scalar fields",
    "The tests evaluate one index.",
    ["circuits/gadgets/index-proof/core/circuit_index_mpt.go"],
    [("range selection and byte swap", "circuits/gadgets/index-proof/core/circuit_index_mpt.go")],
    "mptc", "All 65536 indices, and random out-of-range elements with weight on powers of two and the modulus; every case is non-trivial.",
    "Exhaustive over the valid domain.")
add("C18", "A slot of an account of a block is proved exactly when the chain of roots holds",
    "The combined proof succeeds for every block, account and slot linked by state root and storage root, and gives the block number and slot value. It does not when the block hash, the account's state, the slot's storage trie, the value or the account key is another.",
    "every header, account and storage trie; each link broken in turn",
    "The combined gadget has no test.",
    [M + "eth_proof.go"],
    [("linking of header, account and storage verdicts", M + "eth_proof.go"), ("block number from nibbles", M + "eth_proof.go")],
    "mptc", "A case is a header, an account trie and a storage trie, honest (present or absent slot) or with one broken link; distinct by block, account and slot. A sweep then changes each single nibble of block hash, state root, storage root and value in turn.",
    "Block number zero, which the gadget's shift cannot express, is left out.", assumptions=MPT_ASM)
G = "circuits/gadgets/"
add("C19", "MiMC Merkle roots and sparse-tree inclusion follow the index bits",
    "For every leaf, path and index bits, the Merkle root gadgets give the root obtained by hashing bottom-up with MiMC, on the side each index says. Sparse-tree inclusion answers 1 exactly when the leaf's value subtree and path lead to the given root, else 0. Indices other than 0 and 1, and fewer indices than siblings, are refused.",
    "every leaf, sibling and index sequence up to depth 33, four scalar fields, either leaf convention, whatever the hasher absorbed before",
    "The tests build a handful of random trees over one field, only valid ones.",
    [G + "merkle/mimc_root.go", G + "smt/smt.go"],
    [("two-sided hash and selection by index", G + "merkle/mimc_root.go"), ("value subtree and inclusion verdict", G + "smt/smt.go")],
    "merklec", "A case is a field, a leaf, a path (with edge-biased elements) and in 2 of 5 cases a bad index, a missing index or one changed element; distinct by field, leaf, path and mode.",
    "Compared with gnark-crypto's MiMC over each scalar field; refusals must be unsatisfied constraints.")
add("C20", "The Keccak Merkle root gadget equals the binary Keccak tree root",
    "For every power-of-two number of 32-byte leaf hashes given as little-endian bits, the gadget's root is the one obtained by hashing adjacent pairs with Keccak-256 level by level. Other leaf counts are refused when the circuit is built, and non-boolean bits cannot be satisfied.",
    "every leaf content, 1 to 16 leaves, other counts, every non-boolean bit position, three scalar fields",
    "The one test uses eight zero leaves and compares 32 of the 256 bits.",
    [G + "merkle/keccak_root.go"],
    [("pair hashing with hard-wired padding", G + "merkle/keccak_root.go")],
    "merklec", "A case is a leaf count, random or patterned leaves and, 1 in 5, a non-boolean bit; distinct by content.",
    "Compared with x/crypto/sha3.")
add("C21", "Emulated-field conversions and emulated MiMC are exact",
    "Turning digits of any size dividing the limb grid into emulated elements and back keeps the value, whatever hints a prover supplies. The emulated MiMC hasher gives gnark-crypto's digests over any history of writes, sums and resets, and the emulated Merkle roots and restored roots are those of the tree.",
    "every element value, digit size, 5 emulated moduli, 4 native fields; histories of up to 6 hasher operations; trees of up to 8 leaves and paths of up to 3 siblings, sides not 0 or 1, sides too many or too few",
    "The tests convert one value at one digit size and hash one short message per field.",
    [G + "emulated/element.go", G + "emulated/mimc/mimc.go", G + "emulated/mimc/encrypt.go", G + "merkle/emulated_mimc_root.go", G + "limbs/limbapi.go"],
    [("limb regrouping", G + "emulated/element.go"), ("Miyaguchi-Preneel with emulated rounds", G + "emulated/mimc/mimc.go"), ("pairwise root and path folding", G + "merkle/emulated_mimc_root.go")],
    "merklec", "Cases: conversions (1 in 4 with a dishonest hint if the code asks for any), hasher histories, trees and paths (1 in 5 paths with a bad side). Distinct by parameters and values.",
    "Values are compared as integers with big.Int digits and gnark-crypto digests. Input digits fill the element's limbs exactly.",
    over=["inputs", "histories"],
    assumptions=(FE, "gnark's own emulated arithmetic is trusted"))
add("C22", "Limb, multiplexer and slice helpers keep exact values",
    "Splitting, merging, regrouping and rotating limbs gives the parts of the same bit string, each within its size, whatever a prover supplies; a limb that does not fit its size cannot be split. The multiplexer gives exactly the selected input and refuses other selectors. Slice reversals are exact and leave their input alone.",
    "every limb list (uniform or mixed sizes, totals below, at and above the field size), target size, part count and rotation; every selector; every slice",
    "The one limb test uses three 8-bit constants and honest hints; nothing checks that a prover cannot pick another split.",
    [G + "limbs/limbapi.go", G + "mux/multiplexer.go", G + "utils/slice.go"],
    [("splits constrained by bit decomposition", G + "limbs/limbapi.go"), ("one-hot selection", G + "mux/multiplexer.go"), ("slice reversal", G + "utils/slice.go")],
    "merklec", "A case is an operation with edge-biased sizes and values (1 in 4 with a dishonest hint if the code asks for any, 1 in 5 splits of a limb that is too big), a selection (1 in 4 invalid), or a slice; distinct by parameters and values.",
    "Expected parts are computed with big.Int. Limbs given to regrouping fit their sizes.")
B = G + "pairing_bls12381/"
EMU = (FE, "gnark's own emulated arithmetic (the pinned fork) is trusted", "gnark-crypto's BLS12-381 arithmetic is the reference")
add("C23", "BLS12-381 tower field gadgets compute the field operations",
    "Every operation of the quadratic, sextic and dodecic extension gadgets (sums, products, sparse products, squares, inverses, divisions, Frobenius maps, conjugates, powers, cyclotomic and compressed squares, selections, zero and equality tests) gives the field's value for every operand, whatever representative or constant it comes as, leaves its operands unchanged, and its circuit stays satisfiable.",
    "every element and pair of elements including zero, one, sparse and aliased ones, chains of operations on shared operands, four native fields, dishonest remainders for the zero and equality tests",
    "The tests run one random final exponentiation; they never look at a single field operation, at edge elements, or at what happens to the operands.",
    [B + "tower.go", B + "hash2curve.go"],
    [("tower arithmetic over emulated Fp", B + "tower.go"), ("zero tests on canonical bits", B + "hash2curve.go")],
    "blsc", "A case is a native field, an operation or chain of operations, operands (edge-biased, sparse, cyclotomic where the operation needs it) and the way they enter (witness, constant, with the modulus added); distinct by these.",
    "Division by zero must be refused or proved for zero only as the reference gives it; cyclotomic operations take elements of the cyclotomic subgroup.", assumptions=EMU)
add("C24", "BLS12-381 G2 gadgets compute the curve's group law and endomorphisms",
    "Jacobian addition, subtraction, doubling, negation, scalar multiplication by the curve parameter, endomorphisms and cofactor clearing are right for every pair of curve points in any representation: equal, opposite, at infinity, of small order or outside the subgroup. Affine formulas are right wherever they are defined, and elsewhere cannot be satisfied with a wrong result. Conversions between both forms are exact.",
    "every point of the twist, every Z coordinate, every relation between two operands, four native fields",
    "No test calls these gadgets except through one whole hash-to-curve, which only meets generic points.",
    [B + "g2.go", B + "hash2curve.go", B + "pairing.go"],
    [("Jacobian addition with case selection", B + "g2.go"), ("endomorphism-based cofactor clearing", B + "hash2curve.go"), ("affine slopes", B + "g2.go")],
    "blsc", "A case is a native field, an operation, one or two points (subgroup, curve, order 13 or 23, infinity, or related to each other) and random Z coordinates; distinct by these.",
    "References: gnark-crypto for the group law, psi and phi from their definitions, cofactor clearing against the effective cofactor of RFC 9380. Affine inputs at infinity are out of domain.", assumptions=EMU)
add("C25", "The BLS12-381 pairing gadget computes the pairing product",
    "For every list of pairs of points, the gadget's Miller loop and final exponentiation give the reference pairing product; products that cancel give one. A circuit asserting the right value is satisfiable and one asserting any other value is not, whatever remainders a prover supplies. Lists that are empty or of different lengths are an error.",
    "every list of subgroup points (1 to 3 pairs, infinity on the G1 side, bilinear relations), every invertible input of the final exponentiation, dishonest remainders, four native fields",
    "The tests pair one random pair of points over one field and only check that the right answer is accepted.",
    [B + "pairing.go", B + "tower.go", B + "g2.go"],
    [("Miller loop with sparse line products", B + "pairing.go"), ("final exponentiation with compressed squares", B + "pairing.go")],
    "blsc", "A case is a native field, a list of pairs with a drawn relation and a claim (right or not, prover honest or not), or an element to exponentiate; distinct by these.",
    "Compared with gnark-crypto. The gadget's documented limit, points at infinity on the G2 side, is out of domain.", assumptions=EMU)
add("C26", "Hashing to BLS12-381 G2 follows RFC 9380",
    "For every 32-byte message, expansion, reduction to the field, the simplified SWU map, the isogeny, and encoding or hashing to G2 (affine and Jacobian) give the points of RFC 9380 under the library's domain separation tag, including the map's exceptional inputs. Message elements that are not bytes are refused, and no choice of remainders by a prover gives the map another point.",
    "every message, every field element including zero, purely real or imaginary and exceptional ones, every 512-bit integer to reduce, dishonest remainders, four native fields",
    "The tests hash 13 similar messages; the probability that they meet an exceptional or sign-sensitive case is nil.",
    [B + "hash2curve.go", "circuits/gadgets/sha256/sha256.go"],
    [("expand_message_xmd with in-circuit SHA-256", B + "hash2curve.go"), ("SWU map with sqrt_ratio", B + "hash2curve.go"), ("3-isogeny", B + "hash2curve.go")],
    "blsc", "A case is a native field and a message, byte string, integer, or field element (1 in 7 exceptional), and for the map the remainder lie; distinct by these.",
    "Compared with gnark-crypto's hash to curve.", assumptions=EMU)
E25 = G + "ed25519/"
add("C28", "The edwards25519 support field and scalars are exact arithmetic",
    "Over any history of operations on field elements and scalars, with operands aliased in any way, every value is the integer result modulo 2^255-19 or the group order, in its one canonical encoding; square roots of ratios, signs, equality and conditional moves agree with it. Byte strings of a wrong length and scalars that are not reduced are refused and change nothing.",
    "every element and scalar, edge-biased around 0, p, multiples of the order and 2^256, histories of up to 12 operations over four registers",
    "The tests sample uniform elements for single operations; edge carries and histories with aliasing are not covered, and the scalars have no test at all.",
    [E25 + "test/field/fe.go", E25 + "test/field/fe_generic.go", E25 + "test/scalar.go"],
    [("51-bit limb arithmetic", E25 + "test/field/fe.go"), ("reduction modulo the order", E25 + "test/scalar.go")],
    "edc", "A case is a history of field operations, or one scalar operation with three scalars and a destination; distinct by content.",
    "Compared with math/big after every step; every second process runs the code built without assembly.", over=["inputs", "histories"], purego=True, assumptions=("math/big is the reference",))
add("C29", "The edwards25519 support points follow the group law and encodings",
    "Over any history of additions, subtractions, negations and the three scalar multiplications on any curve points (including those of small order and the identity), the points are those of the affine group law, and their encodings and affine and circuit coordinates are the canonical ones. A 32-byte string decodes exactly when it names a curve point, to that point.",
    "every pair of points of the whole curve, every reduced scalar, aliased operands, histories of up to 5 operations, every 32-byte string",
    "Nothing tests the point code; the signature test uses it on one random key.",
    [E25 + "test/edwards25519.go", E25 + "test/scalarmult.go", E25 + "test/tables.go", E25 + "point.go"],
    [("extended coordinates", E25 + "test/edwards25519.go"), ("table and NAF multiplications", E25 + "test/scalarmult.go"), ("conversion to circuit points", E25 + "point.go")],
    "edc", "A case is a 32-byte string (edge-biased) or a history over three registers of points; distinct by content.",
    "Compared with the harness's own big.Int Edwards curve; every second process runs the code built without assembly.", over=["inputs", "histories"], purego=True, assumptions=("math/big is the reference",))
add("C31", "In-circuit Ed25519 verification accepts exactly valid signatures",
    "For every key and 122-byte message, a valid signature (by the cofactored equation of RFC 8032) satisfies the circuit. With another message, declared key, commitment, response or key point, with points off the curve, or with message or key elements wider than their bytes, it cannot be satisfied, whatever hints a prover supplies, also where a quotient is undetermined.",
    "every key, message and signature, standard or with torsion components, every kind of forgery, dishonest remainders and quotients, three native fields",
    "The one test checks that one signature is accepted (and fails at the pinned commit); no test tries a forgery.",
    [E25 + "ed25519.go", E25 + "point.go", E25 + "curve.go", G + "sha512/sha512.go"],
    [("challenge from SHA-512 reduced in the scalar field", E25 + "ed25519.go"), ("double-base multiplication and cofactor", E25 + "point.go")],
    "edc", "A case is a native field, a signature by Go's crypto/ed25519 or by the equation with torsion points, and for forgeries what is changed and how the prover lies; distinct by these. A sweep then changes each byte of message, declared key and response in turn.",
    "References: crypto/ed25519 and the harness's own curve. The response is taken modulo the order, as the circuit does.", assumptions=(FE, "gnark's own emulated arithmetic (the pinned fork) is trusted"))
U = "common/utils/"
MB = ("math/big and the Go standard library are the reference",)
add("C32", "Off-circuit packing and conversion helpers agree with the circuits",
    "Packing, recomposition, decomposition, flipping and splitting of bits, nibbles, bytes and words are exact for every input and size, reject parts that do not fit, and leave their inputs unchanged. The in-circuit packing helpers and their off-circuit counterparts give the same values, and the chunked MiMC hashes cover every chunk of the data.",
    "every bit string, byte string, nibble string and word list within the sizes used, every group size including partial groups, values around the moduli of BN254, BLS12-377 and BW6-761",
    "The tests flip one bit string; chunks above a modulus, partial groups, odd lengths and agreement with the circuit are not covered.",
    [U + "binary.go", U + "compose.go", U + "utils.go", "common/circuits/"],
    [("bit packing into field elements", U + "binary.go"), ("recomposition and splitting", U + "compose.go"), ("MiMC hash over 256-bit chunks", U + "utils.go")],
    "utilc", "A case is a byte, bit or word string (edge-biased to group boundaries and moduli) with the helper's parameters; distinct by these.",
    "Compared with direct integer arithmetic and gnark-crypto's MiMC; circuit helpers also on the circuit evaluator.", assumptions=(FE,) + MB)
add("C33", "Text, number, time and file helpers convert exactly",
    "Every hex text (any case, prefix, odd length) converts to its bytes, addresses, hashes and integers and back; every decimal, time and chain block number converts to its value. A text is accepted as a transaction hash exactly when it is 32 bytes of hex, and opening a file for use never loses its content.",
    "every byte string up to 70 bytes and its spellings, every unsigned 64-bit number, every edit of a hash text, existing and missing files",
    "Nothing tests these helpers; wrong values would pass silently into requests and witnesses.",
    [U + "hex.go", U + "string.go", U + "time.go", U + "const.go", U + "utils.go", "common/s3api/utils.go", "common/circuits/smt.go"],
    [("hex parsing", U + "hex.go"), ("number parsing", U + "string.go")],
    "utilc", "A case is a byte string and its spelling, a number, an edited text, or a file; distinct by content.",
    "Compared with encoding/hex, strconv, time and math/big.", assumptions=MB)
add("C36", "Block inclusion proofs prove exactly the requested entry",
    "For every block and every index in it, the transaction or receipt proof is a path of trie nodes from the header's root, each hashed in its parent, along the key of that index to a leaf holding exactly that entry, and the reported leaf prefix followed by the entry is that leaf. An index outside the block, or contents that are not those of the header, get an error.",
    "every block of 0 to 300 transactions of all types, every index including negative and far ones, wrong roots, too few receipts, transactions and receipts",
    "The tests need a remote node; block sizes around the RLP key boundaries (0, 127, 128, 256) and bad indexes are never met.",
    ["common/proof/tx_merkel_proof.go"],
    [("derive the trie and prove the key", "common/proof/tx_merkel_proof.go")],
    "proofc", "A case is a block drawn from a pool of transactions, an index (edge-biased) and which list; distinct by roots and index.",
    "The proof is walked by the harness's own trie walker with x/crypto Keccak.", assumptions=("go-ethereum's RLP decoder and DeriveSha are trusted",))
add("C37", "Transaction signers are recovered from the signed bytes",
    "For every signed legacy transaction (with or without replay protection) and dynamic fee transaction, on every chain, the unsigned bytes hash to what was signed and the recovered address is the signer's. Other transaction types and signatures no key can have made are errors.",
    "every kind of transaction with any payload, chain ids up to 66 bits, every key, made locally or decoded from the wire; parities that are none",
    "The tests need a remote node and recover one mainnet transaction.",
    ["common/proof/util.go"],
    [("unsigned RLP and signature recovery", "common/proof/util.go")],
    "proofc", "A case is a kind, a chain id, a key and a transaction; distinct by transaction hash.",
    "Compared with the signing key's address and go-ethereum's signers.", assumptions=("go-ethereum's signers are the reference",))
add("C39", "The contract codec encodes and decodes by the ABI, call after call",
    "For every contract interface and values, calldata is the method's selector followed by the ABI encoding, and decoding calldata or return data gives the values back. Nothing a caller does to returned bytes changes later results; unknown methods, wrong counts and truncated data are errors.",
    "every method signature over elementary types, arrays and strings, every value, histories of up to 5 calls with returned bytes kept, appended to and overwritten",
    "Nothing tests the codec; sharing of memory between calls shows only over several calls.",
    [U + "contract_codec.go"],
    [("ABI packing with selectors", U + "contract_codec.go")],
    "utilc", "A case is an interface of 1 to 3 methods and a history of calls; distinct by operation, types and encoding.",
    "Compared with the harness's own ABI encoder.", over=["inputs", "histories"], assumptions=("the harness's ABI encoder follows the Solidity specification",))
add("C40", "Fabric headers and hash trees match the circuits",
    "Every valid block header of any fork is encoded as its padded Keccak bit stream and block index, so that the circuit hash of the stream is the header's hash; fields that exceed the circuit's sizes are refused. The MiMC tree root of every list of leaves (a power of two in number) is the root the tree gadget finds each leaf under, and no other value.",
    "headers of every fork from legacy to Cancun shape, every field at and over its size, lists of 0 to 4 headers, trees of depth 0 to 6",
    "Nothing tests these helpers without a remote node.",
    ["circuits/fabric/smt/utils.go"],
    [("header stream with padding and block index", "circuits/fabric/smt/utils.go"), ("MiMC tree", "circuits/fabric/smt/utils.go")],
    "utilc", "A case is a list of headers with at most one exceeding field, a tree and leaf, or a 32-byte word; distinct by content.",
    "Compared with go-ethereum's header hash, the harness's own padding and gnark-crypto's MiMC; end to end through the circuit on samples.")
PR = "common/proof/"
add("C34", "Query commitments bind exactly the queried data",
    "The commitment of a receipt, storage or transaction query is the Poseidon hash, over 253-bit chunks, of its fields in their fixed widths and order, and nothing else in the request changes it. A field that does not fit its width, or text that is not hex, never gets a commitment. The Poseidon hasher hashes exactly what was written since the last reset, however often it is asked.",
    "every value of every field at and over its width, receipts with 0 to 8 logs, short and full spellings, any content of the other fields, histories of up to 25 hasher calls",
    "Nothing tests the commitments; a shifted or dropped bit gives a commitment that looks as good as any other.",
    [PR + "query_id.go", U + "poseidon_bn254.go", U + "compose.go"],
    [("field packing and hashing", PR + "query_id.go"), ("hasher", U + "poseidon_bn254.go")],
    "proofc", "A case is a request with all fields filled, at most one of them bad, a slot text, or a history of hasher calls; distinct by the packed fields or history.",
    "Compared with the harness's own bit stream and iden3's Poseidon on it.", over=["inputs", "histories"], assumptions=("iden3's Poseidon is the reference",))
add("C35", "Proofs and requests are exported without loss",
    "The contract encoding of a chunk proof is its numbers, halves of roots and block numbers as 32-byte words; the integers, contract structs, getters and batch text of a proof carry exactly its values, with the point coordinates in the verifiers' order. Every request and proof type survives JSON, and a missing committee proof gives zeros.",
    "every 32-byte word in every spelling, every 64-bit block number, every combination of set and empty fields of all 27 types, every proof point including infinity",
    "One chunk proof with small numbers is encoded by the tests; the other exports and the JSON tags are not tested.",
    [PR + "types.go", PR + "agg_exports.go", U + "groth16_util.go"],
    [("ABI words", PR + "types.go"), ("batch export", PR + "agg_exports.go"), ("point export", U + "groth16_util.go")],
    "proofc", "A case is a proof of random words and points, or a filled value of one of the types; distinct by content.",
    "Compared with the words it was built from; points are rebuilt from the exported numbers.", assumptions=MB)
add("C42", "Chain client reports what the node and beacon API say",
    "Slot and block lookups ask the beacon API for exactly the given number on the right network and report its slot, finality or block number when the answer holds them; for any other answer, status or failure they report none, and never panic. Every answer is closed, and chains without a beacon are answered without asking. Account proofs are requested and returned as the node gives them.",
    "every number up to 2^53, 9 chains, good answers, further entries after the first, answers with any part missing or of another type, arbitrary JSON, cut bodies, error statuses, network failures, up to 16 lookups at once",
    "Nothing tests the client without a network; odd answers come from the outside and are rare.",
    ["common/eth/client.go"],
    [("beacon API lookups", "common/eth/client.go"), ("eth_getProof", "common/eth/client.go")],
    "netc", "A case is a chain, a lookup and an answer, or a proof request and the node's answer; distinct by these.",
    "Compared with an independent reading of the same answer; HTTP goes to an in-process fake.", over=["inputs", "faults"], assumptions=("the HTTP client uses http.DefaultTransport, which the check replaces",))
add("C43", "The object store client behaves as a map of keys to bytes",
    "Over every history of uploads, downloads, existence checks, deletions and listings, also with refused requests in between and from several goroutines, the stored and returned bytes are those last uploaded, an operation fails exactly when it was refused or the object is missing, and a listing names every object with the prefix, however many pages it takes.",
    "histories of up to 14 operations over 24 keys, contents of 0 bytes to several parts, seekable and streamed bodies, requests refused from any one on, page sizes from 2, empty pages, up to 8 goroutines",
    "Nothing tests the client; listings over a page and multi-part contents appear only at size.",
    ["common/s3api/client.go"],
    [("S3 calls", "common/s3api/client.go")],
    "netc", "A case is a bucket, a page size and a history of operations; distinct by history.",
    "Compared with a Go map after every operation; the server is an in-process fake of the S3 protocol.", over=["histories", "faults"], assumptions=("the fake server follows the S3 protocol", "the AWS SDK uses http.DefaultTransport, which the check replaces"))
add("C44", "Contract bindings speak each contract's ABI",
    "A call, transaction, deployment or event subscription made through a binding carries exactly the contract's selector, the ABI encoding of its arguments, its topics and bytecode, to the bound address under the caller's options. Answers, logs and refusals come back as what was encoded, one for one and in order; a cut answer or a log of another event is an error. The printed forms of updates, proofs and events show every value behind its name.",
    "all 177 contracts, 751 methods, 205 events and 122 deployments of common/eth and common/bsc, through every entry (full, caller, transactor, filterer, session and raw), all argument and result values of their types, node errors, cut answers, damaged logs",
    "Nothing tests the 79,000 generated lines; a wrong method, type or name in them shows only against the deployed contract.",
    ["common/eth/bindings.go", "common/bsc/bindings.go", "common/eth/string.go", "common/eth/evstr.go"],
    [("bindings", "common/eth/bindings.go"), ("BSC bindings", "common/bsc/bindings.go"), ("log text", "common/eth/evstr.go")],
    "bindc", "A case is a member of a contract, its arguments, results, options and fault, or a struct to print; distinct by these.",
    "Compared with the harness's own ABI encoder on a copy of the contracts' interfaces (harness/checks/bindc/ifaces.json); selectors are also looked up in the bytecode.", over=["inputs", "faults"], assumptions=("deployed contracts keep the interfaces they had at the pinned commit",))
add("C38", "Keys, proofs, witnesses and constraints survive their files",
    "What is written to a file reads back as the same object, with which proofs are made and verified; files of other content before are replaced, and no file stays open. A missing, unwritable or cut file or a full disk is an error, never a shorter object.",
    "Groth16 and PLONK on three curves, with and without commitments, all object types, fresh and existing files, files cut at any byte, disks full at any byte",
    "Nothing tests the file helpers; leaks and cut files show only over time or after a crash.",
    [U + "pk-vk-utils.go"],
    [("file readers and writers", U + "pk-vk-utils.go")],
    "keysc", "A case is a compiled circuit, an object type and a file state; distinct by these and content.",
    "Compared byte by byte with the object's own serialization, and by proving and verifying. A failed write of a PLONK proving key is only logged, as its signature says.", over=["inputs", "faults"], assumptions=("gnark's serialization is trusted",))
add("C41", "App verifying key hashes bind the key",
    "The hash of a BLS12-377 PLONK verifying key is the BW6-761 MiMC hash of its number of public inputs, coset shift and commitment points in order, and the shortened hash is the BN254 MiMC hash of its two 24-byte halves. Keys that differ in any of these have different hashes.",
    "keys of random points and shifts, each field changed in turn, keys of real circuits, every 48-byte word",
    "Nothing tests the hashes; a field left out gives a hash that looks as good as any other.",
    [U + "plonk_util.go", U + "utils.go"],
    [("vk hash", U + "plonk_util.go")],
    "keysc", "A case is a verifying key, or a 48-byte word; distinct by content.",
    "Compared with the harness's own byte stream under gnark-crypto's MiMC.", assumptions=("gnark-crypto's MiMC is the reference",))
add("C50", "Gadgets compile to circuits that accept just the computed outputs",
    "For every gadget and shape, the R1CS and the PLONK system it compiles to are solved by every input the gadget allows with exactly the outputs it computes, and by no other output or disallowed input; the same holds when some inputs are constants known when compiling. Compiled again, the circuit is the same, so its keys stay valid.",
    "30 gadgets from muxes to MPT nodes, hashes and BLS12-381 towers, in 1 to 7 shapes each, all inputs with edges and damage, any subset of inputs constant, both systems, any output perturbed",
    "The tests run most gadgets in an evaluator that never builds a system, with the inputs of one example; constants, builders and hints behave otherwise.",
    ["circuits/gadgets/"],
    [("all gadgets", "circuits/gadgets/")],
    "compc", "A case is a gadget, a shape, a subset of constants and the inputs; distinct by these.",
    "The system's solutions are compared with the harness's evaluator of the same gadget, and samples with gnark's test engine; the evaluator's results are compared with independent references in the other checks.",
    assumptions=("gnark's builders and solvers are trusted (one gap: its R1CS builder does not enforce a constant <= variable comparison, which is kept out)", "commitments in the solver are replaced by a hash"))
add("C45", "Calls do not depend on what else ran or runs in the process",
    "Every call gives the result it gives alone when it is made again, in another order, and while the same and other calls run in other goroutines, also on one shared codec and on the same inputs. No call changes an earlier call's result or the caller's data, and calls made at the same time do not race.",
    "lists of 2 to 10 calls of 38 kinds, conversions, hashes, codecs, proofs of transactions and receipts, exports, circuit padding, gadgets on their own evaluators, in any order, on 2 to 8 goroutines",
    "Each test makes its calls one after another in one goroutine and looks at each result at once; shared buffers, caches and hashers show only later or under other schedules.",
    [U, PR, "common/circuits/", "circuits/fabric/smt/", "circuits/gadgets/"],
    [("conversions and codec", U + "utils.go"), ("commitments", PR + "query_id.go"), ("proof helpers", PR + "tx_merkel_proof.go")],
    "conc", "A case is a list of calls with their inputs, an order and a number of goroutines; distinct by these.",
    "Results, written down only after all the runs, are compared with the call made alone first; the check runs under Go's race detector. Schedules are sampled, not enumerated.",
    over=["inputs", "schedules"], procs=4, race=True, assumptions=("a race is seen only in schedules that were run", "the Go race detector is trusted"))
