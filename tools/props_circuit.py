ADV = ("Seeded search: each session executes the constraint system compiled from /repo's working tree under the simulator's own solver; "
       "the simulated prover answers every out-of-circuit computation (hint) and every unconstrained wire as a seeded schedule says, with lies, swaps, "
       "compensating lies, replays, aliases and repairs; every accepted session is judged by an independent reference model. Trusts gnark's compiler and field arithmetic. "
       "A lie this adversary does not try can be missed.")
PROVER = "every input within the declared bounds, and every way the (untrusted) prover answers the computations that the circuit delegates to it"
def circ(id, title, statement, files, mech, tests, text=PROVER, over=("inputs", "fault_sequences"), note="", **kw):
    prop(id, title, statement, list(over), text, tests, files, mech, tech=CIRC_TECH, note=(note + " " if note else "") + ADV, **kw)

TODO = "check under construction in this revision of /verif; see DESIGN.md"

MPTNOTE = ("The Keccak permutation is replaced by an ideal one (a table of real Keccak-f results that rejects anything but 64-bit lanes); C09 decides the real one. "
           "Quick runs use up to 3 trie levels, thorough ones 5 or 6.")
circ("C01", "An accepted state/storage trie proof implies the key maps to that value",
     "Whenever a proof of the fixed-length-key trie inclusion circuit verifies with result 1 for an inclusion claim, the trie committed to by the root maps exactly the claimed key to exactly the claimed value bytes: every node on the path hashes into its parent, the path follows the key's nibbles, and the leaf's remaining key and value match. No choice of node lengths, node types, key fragments, prefixes, padding or other prover-supplied values makes the circuit report inclusion for a different key, value or root.",
     [G + "mpt/mpt.go", G + "mpt/mpt_util.go", G + "rlp/rlp.go", G + "keccak/keccak256.go"],
     [("node checks and hash chaining", G + "mpt/mpt.go CheckMPTInclusionFixedKeyLength"), ("leaf, extension and branch checks", G + "mpt/mpt_util.go"), ("key path selection", G + "rlp/rlp.go")],
     "The unit tests feed a handful of recorded mainnet proofs and honest witnesses; soundness is a statement about every witness a cheating prover may supply, which no honest witness exercises.",
     note=MPTNOTE)
circ("C02", "An accepted absence proof implies the key is not in the trie",
     "Whenever the fixed-length-key trie circuit accepts a non-existence claim (an empty storage slot or account), the trie committed to by the root really has no value under that key and the claimed value is the empty one. A prover cannot have a present key reported as absent, nor smuggle a value in through the non-existence mode.",
     [G + "mpt/mpt.go", G + "mpt/mpt_util.go"],
     [("non-existence handling", G + "mpt/mpt.go CheckMPTInclusionFixedKeyLength"), ("empty-branch and diverging-extension checks", G + "mpt/mpt_util.go")],
     "No unit test tries a false absence claim, let alone every prover-chosen combination of flags, lengths and prefixes.",
     note=MPTNOTE)
circ("C03", "An accepted transaction/receipt trie proof implies inclusion at that index",
     "Whenever the transaction/receipt trie circuit (variable key length, no value at branches) reports 1, the claimed hash is the hash of a node that is reached by following the claimed key's digits from the node with the claimed root hash; for the key of an index and the hash of a leaf this is the leaf of that index. Node types, lengths, prefixes, key fragments and depth supplied by the prover cannot make another leaf, index or root accepted.",
     [G + "mpt/mpt.go", G + "mpt/mpt_util.go", G + "keccak/keccak256.go"],
     [("no-branch-termination inclusion check", G + "mpt/mpt.go CheckMPTInclusionNoBranchTermination"), ("leaf and extension fragments", G + "mpt/mpt_util.go")],
     "The tests check a few recorded receipts with honest witnesses.",
     note=MPTNOTE)
circ("C04", "Every genuine trie proof within the declared size is provable",
     "For every trie and key whose honest Merkle proof fits the circuit's declared maximum depth and node sizes, the honest witness is accepted: whatever mix of branch, extension and leaf nodes, odd or even key splits, value lengths and proof depth occurs, for inclusion and for storage non-existence. (Tries with nodes shorter than 32 bytes, which are embedded in their parents, and the empty trie are outside this claim.)",
     [G + "mpt/mpt.go", G + "mpt/mpt_util.go", G + "rlp/rlp.go", G + "keccak/periphery.go"],
     [("inclusion circuits", G + "mpt/mpt.go"), ("RLP array checks", G + "rlp/rlp.go")],
     "The tests hold a few recorded proofs; the shapes of tries are unbounded, and a shape that fails means a user's true claim can never be proven.",
     note=MPTNOTE)
circ("C05", "Account, storage and header proofs compose into one consistent claim",
     "Whenever the composed Ethereum block-hash and account/storage circuits report 1, the header hashes to the claimed block hash, the account is in the state trie under that header's state root, and the slot value is in that account's storage trie; the state root, storage root, account key and slot key used in one part are the ones proven in the other, and the block number, roots, account fields and slot value the circuits expose are those of the header, the account record and the slot. Genuine combinations are accepted.",
     [G + "mpt/eth_proof.go"],
     [("composition", G + "mpt/eth_proof.go")],
     "The tests use recorded honest proofs only; a prover who mixes parts of different honest proofs is never tried.",
     note=MPTNOTE)
circ("C06", "RLP list decoding yields exactly the encoded fields",
     "For every input that contains a whole canonically encoded RLP list, the RLP array check gadgets report it valid exactly if it has the expected number of fields and every field fits its declared maximum; the reported list length, field lengths and field contents are then exactly those of the list under the Ethereum RLP rules. Input that is not a list, or whose fields do not add up to the announced list, is never reported valid. (Whether non-minimal length prefixes are taken is left open, as is input that ends before the announced list does.)",
     [G + "rlp/rlp.go", G + "rlp/util.go"],
     [("array and prefix checks", G + "rlp/rlp.go RlpArrayCheck, ArrayPrefix, FieldPrefix"), ("shifters and multiplexers", G + "rlp/util.go")],
     "The tests decode a few fixed byte strings; a decoder that can be confused on any one length, prefix or boundary lets a prover pick other field contents.")
circ("C07", "Transaction leaf decoding yields the encoded transaction's fields",
     "For every transaction trie leaf within the declared size, the values the transaction-leaf decoding gadget exposes are the fields of the transaction encoded in that leaf; leaves of another type or malformed leaves are rejected.",
     [G + "rlp/rlp.go", G + "rlp/util.go"],
     [("transaction leaf decoding", G + "rlp/rlp.go DecodeTxLeafRlp")],
     "The tests decode a few recorded transactions.")
circ("C08", "The trie key derived from a transaction/receipt index is its RLP encoding",
     "For every index in the supported range, the key nibbles that the index circuits derive (or check) are exactly the nibbles of the RLP encoding of that index, followed by zeros up to the fixed width; an index outside the range gets no key.",
     [G + "index-proof/core/circuit_index_mpt.go"],
     [("index to key", G + "index-proof/core/circuit_index_mpt.go CalTxOrReceiptIndexRlp")],
     "The tests try a couple of indexes; the encoding changes form at 0, 128, 256 and so on.")
circ("C09", "Keccak-256 gadgets compute Ethereum's Keccak-256 of any message length",
     "For every message within the declared maximum, padding it (in the circuit or with the host helpers) and hashing it with the Keccak-256 gadgets (bit-, lane- and nibble-oriented, single or multi block, fixed or variable length) gives exactly the legacy Keccak-256 digest of that message, whatever the prover answers. Digits, lanes, lengths and block indexes outside their declared ranges are rejected.",
     [G + "keccak/keccak256.go", G + "keccak/keccak256_bits.go", G + "keccak/keccak256_bits_optimized.go", G + "keccak/pad.go", G + "keccak/periphery.go", G + "keccak/keccakf/keccakf.go", "common/circuits/keccak.go"],
     [("padding", G + "keccak/pad.go Pad101Bits"), ("sponge", G + "keccak/keccak256_bits.go"), ("host padding and packing", G + "keccak/periphery.go"), ("block selection", G + "mux/multiplexer.go")],
     "The tests hash a few fixed messages; lengths one byte short of a block, unused blocks, out-of-range selectors and lying provers are not tried.",
     note="Lengths are drawn with weight on the 136-byte block boundaries; up to 13 blocks.")
circ("C10", "In-circuit SHA-256 equals SHA-256 for every message and write pattern",
     "For every byte message and every way it is split into writes, the streaming SHA-256 gadget's digest equals SHA-256 of the concatenated writes since the last reset, whatever the prover answers; taking a digest does not disturb later writes, and inputs that are not bytes are rejected.",
     [G + "sha256/sha256.go", G + "sha256/sha256block.go", G + "sha256/uint32api.go", G + "sha256/uint8api.go", G + "sha256/bigEndian.go"],
     [("streaming writes and padding", G + "sha256/sha256.go"), ("compression", G + "sha256/sha256block.go")],
     "The repository has no test of the gadget; block-boundary lengths and interleavings of writes, digests and resets are unbounded.",
     text="every message, every sequence of writes, digests and resets, and every way the prover answers the delegated computations",
     over=("inputs", "histories", "fault_sequences"))
circ("C11", "In-circuit SHA-512 equals SHA-512 for every message and write pattern",
     "For every byte message and every way it is split into writes, the streaming SHA-512 gadget's digest equals SHA-512 of the concatenated writes since the last reset, whatever the prover answers; taking a digest does not disturb later writes, and inputs that are not bytes are rejected.",
     [G + "sha512/sha512.go", G + "sha512/sha512block.go", G + "sha512/uint64api.go", G + "sha512/uint8api.go", G + "sha512/bigEndian.go"],
     [("streaming writes and padding", G + "sha512/sha512.go"), ("compression", G + "sha512/sha512block.go")],
     "The repository has no test of the gadget; block-boundary lengths and interleavings of writes, digests and resets are unbounded.",
     text="every message, every sequence of writes, digests and resets, and every way the prover answers the delegated computations",
     over=("inputs", "histories", "fault_sequences"))
circ("C12", "Merkle-root gadgets compute the root their definition says",
     "For all leaves, paths and direction flags, the Merkle root gadgets (Keccak over bit leaves, MiMC over native and emulated fields, full trees and single paths) output exactly the root obtained by hashing pairwise in leaf order with the corresponding host hash, whatever the prover answers, and direction flags other than 0 and 1 are rejected.",
     [G + "merkle/keccak_root.go", G + "merkle/mimc_root.go", G + "merkle/emulated_mimc_root.go", G + "emulated/mimc/mimc.go"],
     [("keccak tree", G + "merkle/keccak_root.go"), ("MiMC path", G + "merkle/mimc_root.go"), ("emulated MiMC tree and path", G + "merkle/emulated_mimc_root.go")],
     "The tests check one fixed tree each with honest witnesses.")
circ("C13", "Sparse Merkle tree inclusion reports 1 exactly for members",
     "The sparse Merkle tree inclusion gadget reports 1 if, and only if, hashing the given leaf-value tree and then the given path with its direction flags reproduces the given root, and 0 otherwise, whatever the prover answers; direction flags other than 0 and 1 are rejected.",
     [G + "smt/smt.go", G + "merkle/mimc_root.go"],
     [("inclusion", G + "smt/smt.go CheckSMTInclusion"), ("path hashing", G + "merkle/mimc_root.go")],
     "The tests use one honest membership witness.")
circ("C14", "Limb splitting, merging and rotation preserve the integer",
     "For every word, splitting it into limbs, regrouping limbs to another width, merging them and rotating them yields exactly the limbs of the same (rotated) integer, each limb within its declared width, whatever the prover answers; a word that does not fit its declared width is rejected.",
     [G + "limbs/limbapi.go", G + "limbs/utils.go"],
     [("split with its constraint", G + "limbs/limbapi.go Split"), ("regrouping", G + "limbs/limbapi.go Resplit, Merge, Lrot")],
     "The tests use honest witnesses and a few sizes; every limb boundary, width combination and every false split a prover can offer matter.")
circ("C15", "Selection, shift, sub-array and comparison gadgets compute what they say",
     "For every table and selector, the multiplexing gadgets return exactly the entry at the selected position, and a selector that is not the index of an entry is rejected (or, for the gadget that does not assert, yields nothing) rather than mapped to some value. The shift, sub-array and array-comparison gadgets likewise return exactly the shifted, cut or compared array for every amount and length within the bounds they are declared with, and reject others, whatever the prover answers.",
     [G + "mux/multiplexer.go", G + "rlp/util.go"],
     [("one-hot decoding", G + "mux/multiplexer.go decode"), ("RLP multiplexer", G + "rlp/util.go Multiplexer")],
     "The tests try a few selectors on small tables with honest witnesses.")
circ("C16", "Emulated-field conversions and MiMC agree with the native field",
     "Converting limbs to emulated field elements and back preserves the integer for every value and digit width, with every produced digit within its width, and the emulated MiMC hash of any sequence of elements equals the native MiMC hash of the same field elements, whatever the prover answers.",
     [G + "emulated/element.go", G + "emulated/mimc/mimc.go", G + "emulated/mimc/encrypt.go"],
     [("conversions", G + "emulated/element.go"), ("emulated MiMC", G + "emulated/mimc/mimc.go")],
     "The tests check a few fixed values in two fields with honest witnesses.")
circ("C17", "The Ed25519 gadget accepts exactly valid signatures",
     "For every public key, message of the declared size and signature, an honest prover can satisfy the Ed25519 verification circuit if the signature is valid by the cofactored equation of RFC 8032. No prover can satisfy it if the signature is not: S not below the group order, R or the key not a curve point with canonical coordinates, the key's bytes not those of its point, or the equation false.",
     [G + "ed25519/ed25519.go", G + "ed25519/point.go", G + "ed25519/curve.go", G + "ed25519/twistededwards.go", G + "sha512/sha512.go"],
     [("verification equation", G + "ed25519/ed25519.go"), ("point arithmetic", G + "ed25519/point.go")],
     "The one test checks a fixed signature; every key, message, malformed point and false witness matters.")
circ("C18", "BLS12-381 tower, group and pairing gadgets compute the real operations",
     "For all field and group elements, the BLS12-381 extension-field, G2 and pairing gadgets return exactly the results of the corresponding native operations, whatever the prover answers (inverses, quotients and residues it supplies included) and whichever representative of a residue it uses; honest provers always get an answer. Division by zero is refused, and the affine addition formulas, which only hold for finite points in general position, refuse or stay right elsewhere.",
     [G + "pairing_bls12381/tower.go", G + "pairing_bls12381/g2.go", G + "pairing_bls12381/pairing.go", G + "pairing_bls12381/gt.go"],
     [("tower arithmetic", G + "pairing_bls12381/tower.go"), ("group arithmetic", G + "pairing_bls12381/g2.go"), ("Miller loop and final exponentiation", G + "pairing_bls12381/pairing.go")],
     "The tests check single random points with honest witnesses; zero, one, the point at infinity, special forms of torsion and cyclotomic elements and lying provers are not tried.")
circ("C19", "BLS12-381 hash-to-curve gadgets follow RFC 9380",
     "For every message, the message-expansion, hash-to-field, map-to-curve, isogeny, clear-cofactor and hash/encode-to-G2 gadgets return exactly the point or bytes RFC 9380 prescribes, whatever the prover answers and whichever representative of a residue it uses; honest provers always get an answer, and messages that are not bytes are rejected.",
     [G + "pairing_bls12381/hash2curve.go", G + "pairing_bls12381/g2.go", G + "sha256/sha256.go"],
     [("expansion and mapping", G + "pairing_bls12381/hash2curve.go"), ("isogeny and cofactor", G + "pairing_bls12381/g2.go")],
     "The tests check one message with honest witnesses; the sign, the square-root branch and residues are prover-supplied, and field elements with zero parts have cases of their own.")
circ("C20", "Bit, nibble and byte recomposition gadgets lose and alias nothing",
     "For every value, the gadgets that pack bits into bytes, nibbles, 128-bit halves or field elements, and those that unpack them, return exactly the digits of the same value in the documented order, whatever the prover answers, so distinct inputs never share a packed form.",
     [G + "conv/bits.go", G + "utils/slice.go", "common/utils/binary.go"],
     [("packing", G + "conv/bits.go"), ("unpacking", G + "utils/slice.go FlipKeccakFvBits"), ("packing into field elements", "common/utils/binary.go PackBitsToFr, Byte32ToBits")],
     "Most of these have no test; aliasing and order mistakes show only for particular values.")
