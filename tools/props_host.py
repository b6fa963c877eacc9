SIM = ("Seeded search: every run is one seed's inputs, interleaving, delays and faults against the code of /repo's working tree, which runs unmodified above a simulated kernel "
       "file interface and HTTP transport (a build overlay of the Go distribution) and a virtual clock. A fault sequence that no seed of the budget draws can be missed.")
def host(id, title, statement, over, text, tests, files, mech, note="", **kw):
    prop(id, title, statement, list(over), text, tests, files, mech, tech=HOST_TECH, note=(note + " " if note else "") + SIM, **kw)
U = "common/utils/"
PK = U + "pk-vk-utils.go"

host("C21", "A key, witness or proof file that was saved without an error is whole",
     "Whenever saving a constraint system, proving or verifying key, witness, proof, exported verifier or public-input file reports success, reading the file back gives an object equal to the saved one. A read that reports success gives that same object whatever went wrong on the disk meanwhile; calls the kernel merely interrupted do not fail the operation; and once the disk works again, saving works again.",
     ["inputs", "fault_sequences"], "every artifact kind, every earlier content of the file, and every sequence of failing, short, interrupted or late-failing file system calls while writing and reading",
     "The tests never write a file on a disk that misbehaves; most do not check the saved file at all.",
     [PK], [("reading and writing of artifacts", PK), ("raw bytes", PK + " WritePublicInputs, ReadFileAndReturnByteArray")])
host("C22", "A crash while saving never leaves a file that reads as a different artifact",
     "Whenever a process dies at any system call while it saves an artifact, reading the path afterwards either fails or gives the artifact being saved (or the one that was there before); a torn file is never taken for a complete one. After the crash, saving the artifact again succeeds and the file is whole.",
     ["crash_points", "inputs"], "every system call at which the process may die, every prefix of the data that may have reached the disk, every earlier content of the file",
     "No test kills a writer; the readers are only ever fed complete files.",
     [PK], [("writers and readers", PK)],
     note="Artifacts whose every prefix is a valid file of their kind (raw public inputs, Solidity source) are left out.")
host("C23", "Opening a file for create-or-append never destroys what it holds",
     "The create-or-open helper returns either a usable file or an error, not both or neither; whatever the file already held, or another process writes to it concurrently, is still there afterwards and can be read through the returned file. It never fails on a healthy disk and leaks no descriptors.",
     ["schedules", "fault_sequences", "inputs"], "every interleaving of its system calls with another process creating, filling or replacing the file, and every failing call",
     "No test covers the helper, and the loss shows only when another process acts between two of its calls.",
     [U + "utils.go"], [("CreateOrOpenFile", U + "utils.go CreateOrOpenFile")])
host("C24", "Saving and loading artifacts never leaks file descriptors",
     "After any sequence of artifact saves and loads, successful or failing for whatever reason, no file opened by them remains open. A long-running prover that retries failing operations does not run out of descriptors.",
     ["histories", "fault_sequences"], "every sequence of operations on artifact files and every sequence of disk faults during them",
     "Tests run each operation once, on success paths, in processes that exit right away.",
     [PK], [("readers and writers", PK)])
host("C25", "An object listing is complete or an error",
     "Whenever listing the bucket under a prefix reports success, it holds each object whose key has the prefix, once each, and nothing else, however many pages the server splits it into. Without a fault it succeeds; with faults it ends in bounded time and leaves no response open.",
     ["inputs", "fault_sequences"], "every bucket content, prefix and page size, and every sequence of lost, delayed, cut, refused or failed responses",
     "The storage client has no tests apart from a generated mock; the page limit of the service shows at more than a thousand objects only.",
     ["common/s3api/client.go"], [("ListObjects", "common/s3api/client.go ListObjects")])
host("C26", "Object storage operations behave as one register per key",
     "Under concurrent clients and network faults, every successful download returns the whole bytes of one uploaded version, one that some legal order of the overlapping operations allows: never older than a version whose upload had already succeeded, never a deleted one, and never a mixture of versions even when the object is fetched in parts. A read error of the source or a write error of the target is never reported as success; without faults every legal operation succeeds; all operations end in bounded time and release their connections.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of uploads, downloads, existence checks and deletions of several clients, object sizes from empty to several parts, and every sequence of network faults, retries and lost answers",
     "No test talks to a store; a mixture of versions needs an overwrite between two part requests.",
     ["common/s3api/client.go"], [("Upload, Download, HeadObject, Delete", "common/s3api/client.go")])
host("C27", "Chain queries report what the node said or nothing",
     "The beacon explorer lookups return a slot or block number only if the server's answer says so, and \"nothing\" otherwise, whatever the status, body, encoding or truncation of the answer, without ever panicking; on a healthy network a well-formed answer is never missed. An account proof request returns exactly what the node answered for that account, keys and block, or an error.",
     ["inputs", "fault_sequences", "schedules"], "every response a faulty or hostile server can send, every network fault, and concurrent callers",
     "The tests need a live service and skip all odd answers.",
     ["common/eth/client.go"], [("GetSlot and GetBlock", "common/eth/client.go"), ("GetProof", "common/eth/client.go GetProof")])
host("C28", "Chain explorer requests end and release their connections",
     "Every explorer lookup ends within a bounded time, however slow or silent the server is, and every response that was received is closed, so that a relayer polling a stalled or failing service neither hangs nor exhausts its connections.",
     ["fault_sequences", "schedules"], "every pattern of stalls, trickling bodies, resets and error statuses on a virtual clock, with concurrent callers",
     "A test cannot wait for a hang, and leaks do not show in a single call.",
     ["common/eth/client.go"], [("HTTP client", "common/eth/client.go")])
host("C29", "Transaction and receipt proofs verify against the header or are refused",
     "For every block and every index, the proof builders return a Merkle proof that go-ethereum's verifier accepts under the header's root for exactly that index and the canonical encoding of that item, with the root node first and the leaf prefix that precedes the item in the leaf; when the index is not in the block, or the supplied transactions or receipts do not match the header, they return an error, never a proof.",
     ["inputs", "fault_sequences"], "every block of transactions and receipts of all types and sizes, every index including negative and missing ones, and every tampering of the supplied items by the node that served them",
     "The tests fetch a few recorded blocks over the network and never a missing index or a node that lies.",
     ["common/proof/tx_merkel_proof.go"], [("proof construction", "common/proof/tx_merkel_proof.go GetTransactionProof, GetReceiptProof")])
host("C30", "Raw receipts and signers equal go-ethereum's or are errors",
     "The signer recovered from a transaction is the one go-ethereum recovers, for every transaction type the repository handles; a transaction without a valid signature gives an error and no address. The raw receipt is the canonical encoding of the receipt or an error, at a cost that does not grow with its index. Neither panics, whatever a node served.",
     ["inputs", "fault_sequences"], "every transaction and receipt of every type, and every alteration of signatures, chain identifiers, types and indexes by a hostile node",
     "The tests recover a few recorded transactions.",
     ["common/proof/util.go", "common/proof/tx_merkel_proof.go"], [("signer", "common/proof/util.go RecoverTransactionSignerAddress, PrepareUnsignedTransactionRlp"), ("raw receipts", "common/proof/tx_merkel_proof.go GetReceiptRaw")])
host("C31", "Helpers shared by several callers never change each other's data",
     "However callers that share one contract codec, hasher input, read buffer or scratch number interleave their calls, each gets the result a lone caller would get; nothing that a helper returned changes later, and no helper alters what its caller passed in. Results equal an independent reference (ABI encoding, Poseidon, bit packing, padding).",
     ["schedules", "histories", "inputs"], "every interleaving of calls and buffer reuse by callers of the shared helpers, over all inputs within the declared bounds",
     "Tests call each helper alone, once, and drop the result.",
     [U + "contract_codec.go", U + "poseidon_bn254.go", U + "compose.go", U + "binary.go", "circuits/gadgets/keccak/pad.go", "circuits/fabric/smt/utils.go"],
     [("codec", U + "contract_codec.go"), ("Poseidon", U + "poseidon_bn254.go"), ("padding", "circuits/gadgets/keccak/pad.go"), ("bits", U + "compose.go and " + U + "binary.go")],
     note="Callers take turns between calls; data races inside one call are not looked for.")
host("C32", "A circuit compiles to the same constraint system every time",
     "Compiling a circuit from the repository's gadgets gives the same constraint system in every process and at every moment: whatever other compilations run beside it or were aborted before it, and in whatever order maps are iterated. Prover and verifier that compile separately therefore derive the same keys.",
     ["schedules", "crash_points", "programs"], "every interleaving of concurrent compilations at circuit-builder calls, every point at which another compilation is aborted, every map iteration order, and a family of circuits from all gadget packages",
     "Tests compile each circuit once and compare it with nothing.",
     ["circuits/gadgets"], [("package-level state and map iteration in gadgets", "circuits/gadgets"), ("lookup-table and cache reuse", "circuits/gadgets/utils, circuits/gadgets/pairing_bls12381")])
host("C33", "Header encodings and host hashes match what the circuits expect",
     "The header encoder returns for each header exactly the padded bits of its RLP encoding and the round in which it ends, or an error for headers that do not fit; the host-side Merkle roots and hash helpers give the values that MiMC and their packing or tree definition prescribe and leave their inputs alone.",
     ["inputs"], "all headers, including sizes around every block boundary and beyond the limit, and all leaf counts and hash inputs",
     "The tests encode generated headers of one shape.",
     ["circuits/fabric/smt/utils.go", U + "utils.go"], [("EncodeHeaders, MimcRoot, MimcHashBytes32, NewHash", "circuits/fabric/smt/utils.go"), ("GenerateBls12377Hash", U + "utils.go")])
host("C34", "A query commitment binds every committed field of the query",
     "The commitments of receipt, storage and transaction queries equal the hash of the documented packing of their fields; a query in which any committed field was altered on its way from client to prover never keeps the commitment; a query with a field that does not fit its declared width, is negative or is no number gets no commitment.",
     ["inputs", "fault_sequences"], "all queries within and beyond the declared widths, and every alteration of their stored form (fields changed, swapped, shifted into one another, lengthened)",
     "The tests compute one commitment and print it.",
     ["common/proof/query_id.go"], [("commitments", "common/proof/query_id.go")])
host("C35", "Proofs survive transport to the contract unchanged",
     "A proof that is exported, stored as JSON, read back and handed to the on-chain submission code arrives there with exactly the numbers the prover produced, in the order the contract reads them; chunk proofs are ABI-encoded with exactly their hashes and block numbers, and batch lines carry the proof and inputs they were made from.",
     ["inputs", "fault_sequences"], "all proofs and public inputs, including extreme and zero coordinates and block numbers, and repeated or reordered passage through the store",
     "The tests convert no proofs.",
     ["common/proof/types.go", "common/proof/agg_exports.go", U + "groth16_util.go"], [("conversion", "common/proof/types.go"), ("export", U + "groth16_util.go ExportProof"), ("batch line", "common/proof/agg_exports.go")])
host("C37", "An application key altered in storage never keeps its key hash",
     "The host's application key hash is the hash of the verifying key's parts in the documented order and the same for every copy of a key. A verifying key in which a store, or whoever supplies it, altered any part that verification uses does not keep its hash. Computing it leaves the key as it was.",
     ["inputs", "fault_sequences"], "all verifying keys and all alterations and swaps of their parts on the way from their owner to the node that identifies them",
     "No test hashes a key.",
     [U + "plonk_util.go"], [("key hash", U + "plonk_util.go CalculateAppVkHashFor761, CalculateAppVkHashFrom761To254")],
     note="Known findings: domain size, its inverse, the generator, commitment selectors and their indexes are not hashed (see known-findings.json).")
