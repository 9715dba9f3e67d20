"""The properties, their anchors and assumptions: single source of properties.jsonl and MANIFEST.json (python3 gen.py)."""
PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), trusted=(), assumptions=(), note="", technique=None, level="proof"):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}], "state": [{"name": a, "meaning": b} for a, b in state]},
                      trusted=list(trusted), assumptions=list(assumptions), note=note, technique=technique, level=level)


U, V = "src/util/", "src/chains/eth/verifier/"

prop("C01", "Merkle proofs bind every leaf to the root at its position",
     "Verifying a single or multi Merkle proof over generalised indices yields the root that results from hashing all given leaves and witnesses at exactly their tree positions. A proof with missing or surplus witnesses yields no root (it is rejected, the output stays untouched). No proof data is read outside the given byte string.",
     ["inputs"], "every proof byte string, every set of leaves at distinct positions (none below another), every 64-bit generalised index",
     "tests replay a few recorded proofs of fixed shape; a wrong sibling order, a skipped level or a leaf that is not bound only shows for other shapes",
     [U + "ssz_merkle.c"], "merkle_proof folds from the deepest leaf to the root; missing siblings are computed recursively from other leaves; ssz_add_multi_merkle_proof derives the positions of the witnesses",
     [("spec_V", "ghost: value of every tree node, any assignment consistent with leaves, witnesses and the hash function")],
     trusted=["sha256 is an uninterpreted function (only functional consistency is used)"],
     assumptions=["the positions of the witnesses (ssz_add_multi_merkle_proof) are checked in the bounded jobs only; the fold over them (merkle_proof, merkle_get_data) is proved for all sizes"],
     note="merkle_proof / merkle_get_data proved by loop contracts for any number of leaves and any depth; the list of witness positions and the public entry points are a bounded stand-in (pairs of leaves in depth 2 trees, selected single branches) over all contents and any hash function")
prop("C05", "RLP decoding is exact and never leaves the source",
     "Decoding the n-th item of any byte string as RLP returns exactly the type and payload slice defined by the RLP rules, or an error, and never reads or returns a byte outside the source. An error leaves the result slice untouched; counting items returns their number only for well-formed sequences.",
     ["inputs"], "every byte string up to 2^31-1 bytes, every item index, with and without a (possibly aliasing) result slice",
     "tests decode well-formed samples; truncated or lying length prefixes, aliased results and large indices are an unbounded input space",
     [V + "rlp.c"], "rlp_decode walks over item prefixes; every returned slice passes check_range against the source length",
     [("spec_rlp", "ghost: reference decoder run in lock step with the loop")],
     note="rlp_decode under a loop contract, all inputs")
prop("C02", "A Patricia proof never claims more than the trie says",
     "Verifying a Patricia proof reports FOUND with a value only if the given nodes form a chain from the returned root (hash of the first node) along all nibbles of the key to exactly that value, each following node having the hash referenced by the one before (or being embedded in it), and NOT_EXISTING only if that chain shows that the key is absent. Truncated proofs, nodes with the wrong hash and malformed nodes are INVALID; complete well-formed proofs are accepted. No byte outside the proof is read.",
     ["inputs"], "every key, every list of nodes (any bytes), any hash function",
     "tests verify recorded mainnet proofs; attacker-made nodes, truncated chains, embedded children and exclusion proofs are not sampled",
     [V + "patricia.c"], "patricia_verify hashes each node and compares it with the reference of the previous one; handle_node follows one node",
     [("spec_chain", "ghost: position in the key, referenced hash and state of the chain of nodes"), ("spec_g", "ghost: an arbitrary nibble position (proved for it, so for all)")],
     trusted=["keccak is an uninterpreted function (only functional consistency is used)"],
     assumptions=["calls of rlp_decode in handle_node are by its contract (property C05)", "node and key lengths below 2^24 bytes"],
     note="nibble functions, handle_node and the loop of patricia_verify proved by contracts; 17 arrangements of up to 3 nodes (branch, extension, leaf, embedded, malformed, truncated, surplus) additionally checked end to end with the real rlp.c and ssz.c")

prop("C03", "SSZ access returns the encoded child and never leaves the object",
     "Reading a field, a list or vector element or a union value of an SSZ object returns exactly the bytes that the SSZ encoding assigns to that child, or nothing. For every byte string, valid or not, the returned bytes lie inside the object and no byte outside of it is read.",
     ["inputs"], "every type, every byte string (malformed offsets included), every index",
     "tests read well-formed samples; lying offsets and lengths of attacker-made proofs are an unbounded input space",
     [U + "ssz.c", U + "ssz_merkle.c"], "ssz_get/ssz_get_field, ssz_at, ssz_len and ssz_union check every offset against the object before they use it",
     [("spec_field_at", "ghost: position of the n-th slot in the fixed part of a container")],
     assumptions=["in the contract proofs the static facts about a type (fixed size, dynamic or not) are arbitrary but consistent; the functions computing them (ssz_is_dynamic, ssz_fixed_length) and the lookup by name run for real in the bounded jobs"],
     note="ssz_get_field proved for any container, field and bytes (loop contracts), ssz_at for any list of dynamic elements and ten element sizes; 16 types end to end with all byte strings up to 3..22 bytes (bounded)")
prop("C04", "SSZ validation accepts exactly the canonical encodings",
     "Validating a byte string against an SSZ type succeeds exactly if the bytes are an encoding of that type: fixed sizes, booleans, offsets in order and starting right behind the fixed part, list limits, bit list delimiter and union selector. Validation never reads outside the byte string and accepted objects decode without loss.",
     ["inputs"], "every byte string for every type kind and their nesting",
     "tests validate recorded proofs only; the accepted language for malformed bytes is never sampled",
     [U + "ssz.c"], "ssz_is_valid checks the bytes of every type recursively before a proof is used",
     assumptions=["recursion over nested types is checked for the listed types (nesting depth 2)"],
     note="bounded stand-in: 16 types covering every kind of type and nesting, all byte strings up to 3..22 bytes against an independent definition; no unbounded contract because ssz_is_valid recurses over heap types",
     level="model_checking")

prop("C07", "Beacon headers are accepted only when signed by the sync committee",
     "A beacon header is accepted only if a sync committee signature over the signing root of that header, of a later header linked to it through parent roots, or of a header whose state holds its root in the historical summaries was confirmed. The signing domain is that of the fork active at the signed slot on the requested chain, the keys are those of the committee of that slot's period or of the period before, and a header confirmed earlier never vouches for another one. A header with a confirmed signature is not rejected.",
     ["inputs", "histories"], "every header, participation bits, signature, chain and header content; every outcome of the committee lookup and of the signature check",
     "the recorded proofs carry valid signatures for one domain each; a wrong period, domain or link is never sampled and the signature tests are not part of the build",
     [V + "beacon_header.c", "src/chains/eth/ssz/beacon_types.c"], "c4_verify_header selects the kind of proof, c4_verify_blockroot_signature derives signing root and period and asks for the committee",
     [("signed_ok", "ghost: the signature check said yes for exactly the specified message, keys, bits and signature")],
     trusted=["blst_verify answers whether the aggregate signature is valid (any answer is considered)", "c4_get_validators returns the keys stored for the period (properties C09 and C10)", "sha256 is an uninterpreted function that never maps to zero"],
     assumptions=["slots below 2^44, after the Altair fork", "branch of the historic proof by the contract of property C01; tree hash of headers by uninterpreted function in the chain and historic jobs, computed by the real code in the direct jobs",
                  "verification build: the union inside ssz_def_t is laid out as a struct (the code only reads the member it wrote)"],
     note="direct and historic proofs for all inputs (4 and 2 chains); chains of 0..3 intermediate headers and two checks in a row bounded")

prop("C11", "Account answers are proved for the requested account and block",
     "A balance, nonce, code, storage or account proof answer is accepted only if the account proof is valid for the requested address, its root is the state root of a confirmed beacon block (the requested one if given by number or hash) and the storage proofs start at the storage root of that account. The returned value is the one in the account (or storage slot of the requested key), zero or empty if the proof shows that it does not exist; code has the code hash of the account. Correct proofs are accepted and oversized items never overrun a buffer.",
     ["inputs"], "every proof content, header, hash and value for each request; found, not existing and invalid proofs; oversized items",
     "the recorded proofs are correct ones for the requested account; a proof of another account, key or block, and exclusion proofs are not sampled",
     [V + "verify_account_proof.c", V + "eth_account.c"], "verify_account_proof checks account and storage proofs, state root, header and finally builds or compares the result",
     [("spec_trie", "ghost: root, path, result and value of every trie proof"), ("spec_leaves", "ghost: leaves and positions which have to hash to the body root")],
     trusted=["keccak and sha256 are uninterpreted functions that never map to zero"],
     assumptions=["trie proofs, branches and header by the contracts of properties C02, C01, C07", "one request text per kind of request; item lengths as stated per job (0..33 bytes), up to two storage keys",
                  "verification build: the union inside ssz_def_t is laid out as a struct (the code only reads the member it wrote)"],
     note="bounded stand-in over the shape (request text, item lengths, number of storage keys): inside the shape all contents, with unwinding assertions; no unbounded contract, because the code walks heap objects through ssz and json at symbolic offsets",
     level="model_checking")

prop("C13", "Block answers are the proved block of the requested number or hash",
     "A block answer is accepted only if its execution payload is the one of a confirmed beacon block and has the requested number or hash; all fields of the answer (transaction hashes or complete transactions included) are those of that payload, whatever block the prover sent along. A block number answer is accepted only if number and timestamp are those of a confirmed beacon block, and it is that number. These proofs answer no other method, and correct proofs are accepted.",
     ["inputs"], "every payload content, header, witness and hash for each kind of request",
     "the recorded proofs are correct ones of the requested block; another block, method or a block sent along by the prover is not sampled",
     [V + "verify_block.c"], "verify_block_proof hashes the payload, checks branch and header and builds the result from the payload; verify_block_number_proof checks both leaves",
     [("res", "ghost: complete canonical encoding of the answer"), ("spec_leaves", "ghost: leaves and positions which have to hash to the body root")],
     trusted=["keccak and sha256 are uninterpreted functions that never map to zero"],
     assumptions=["branches and header by the contracts of properties C01, C07; tree hash of payload and withdrawals, trie over the transactions and decoding of a transaction by contract (any value)",
                  "one request text per kind of request, 0..2 transactions of 6 bytes, 0..2 withdrawals, 5 bytes of extra data", "the withdrawals root of the answer is the SSZ root of the withdrawals (as the existing tests expect), the requests hash is not part of the answer",
                  "verification build: the union inside ssz_def_t is laid out as a struct (the code only reads the member it wrote)"],
     note="bounded stand-in over the shape (request text, lengths and numbers of items): inside the shape all contents, with unwinding assertions",
     level="model_checking")

prop("C14", "A request succeeds only if the handler of its proof accepted it",
     "Verification reports success exactly if the request is a valid encoding for the requested chain, its sync data was accepted and the handler responsible for its kind of proof accepted the proof; every other outcome is an error with a message, or pending as long as requested data is missing. No proof is looked at before the request was validated completely and the sync data accepted; unknown chains, unknown kinds of proof and missing proofs for provable methods are errors.",
     ["inputs", "histories"], "every kind of proof, answer of handlers, sync data and validation, and a second attempt after requested data arrived, failed or is still missing",
     "tests run complete good proofs; a handler that refuses silently, failing sync data and repeated attempts are not sampled",
     ["src/verifier/verify.c", V + "eth_verify.c", U + "state.c"], "c4_verify_init validates and splits the request, c4_verify calls the chain's dispatcher and maps its outcome to a status",
     [("answer, sync_answer", "ghost: outcome of handler and sync update (success, error, pending, silent refusal)")],
     assumptions=["handlers, update from sync data and validation by contract: any answer (properties C04, C07, C09, C11, C12, C13)", "one method per kind of proof plus the methods which select a handler",
                  "verification build: the union inside ssz_def_t is laid out as a struct and the lookup of types is by its table (proved for the real one in entry_types)"],
     note="all jobs complete for all contents (unwinding assertions), one kind of proof, method and chain per job")

prop("C12", "Transaction answers are the proved transaction of the request",
     "A transaction answer is accepted only if the transaction is at the given index of the transactions of a confirmed beacon block, together with that block's number and hash, and is the requested one (by hash, or by block hash or number and index). Every field of the answer is the one encoded in that transaction, the sender being its signer, plus block number, block hash, index and the gas price derived from the base fee of the block. These proofs answer no other method; malformed transactions are rejected without reading or writing outside of a buffer, and correct proofs are accepted.",
     ["inputs"], "every transaction content (legacy with and without chain id, access list, fee market, blob, set code, deposit), index, header, witness and hash for each kind of request",
     "the recorded proofs are correct ones of a few transactions; another index, block or transaction, and malformed fields are not sampled",
     [V + "verify_tx_proof.c", V + "eth_tx.c"], "verify_tx_proof checks the four leaves against the body root, the header and the request; c4_write_tx_data_from_raw decodes the fields and the signer",
     [("res", "ghost: complete expected answer"), ("spec_leaves", "ghost: leaves and positions which have to hash to the body root"), ("spec_sig", "ghost: payload which has to be signed")],
     trusted=["keccak and sha256 are uninterpreted functions that never map to zero", "the public key recovery of secp256k1 is an uninterpreted function of digest and signature"],
     assumptions=["branches and header by the contracts of properties C01, C07; tree hash of the transaction by contract (any value)", "one request text per kind of request; item lengths as stated per job",
                  "the base fee of a block is not above the max fee of its transactions (guaranteed by consensus)",
                  "verification build: the union inside ssz_def_t is laid out as a struct (the code only reads the member it wrote)"],
     note="bounded stand-in over the shape (request text, kind of transaction, item lengths): inside the shape all contents, with unwinding assertions",
     level="model_checking")

prop("C16", "Receipt and log answers are proved by the receipts of the block",
     "A receipt answer is accepted only if its type, status, cumulative gas, bloom and logs are those of the receipt at its transaction index in the trie with the receipts root of a confirmed beacon block, and if transaction, block number and block hash are the requested and proved ones. Every log of a log answer is accepted only if it is (with address, topics and data) one of the proved receipt of its transaction, with the proved block number, block hash, transaction hash and index. These proofs answer no other method; malformed receipts are rejected without leaving a buffer, and correct proofs are accepted.",
     ["inputs"], "every receipt, log, header, witness and hash content for receipts with 0..2 logs and log answers over 1..2 blocks",
     "the recorded proofs are correct; a log, topic, bloom or transaction hash that differs from the proved one is not sampled",
     [V + "verify_receipt_proof.c", V + "verify_logs_proof.c", V + "eth_tx.c"], "c4_tx_verify_receipt_data and c4_tx_verify_log_data compare the answer with the raw receipt found by patricia_verify; verify_merkle_proof binds number, hash, receipts root and transaction to the body root",
     [("spec_leaves", "ghost: leaves and positions which have to hash to the body root"), ("spec_trie", "ghost: root, path, result and value of every trie proof")],
     trusted=["keccak and sha256 are uninterpreted functions that never map to zero"],
     assumptions=["trie proofs, branches and header by the contracts of properties C02, C01, C07; tree hash of the transaction by contract (any value)", "one request text per method; numbers of blocks, transactions, logs and topics as stated per job",
                  "gasUsed, effectiveGasPrice, contractAddress, logIndex and removed are not part of a receipt in the trie and not proved; the filter and the completeness of a log answer are not proved by this kind of proof",
                  "verification build: the union inside ssz_def_t is laid out as a struct (the code only reads the member it wrote)"],
     note="bounded stand-in over the shape (numbers and lengths of items): inside the shape all contents, with unwinding assertions",
     level="model_checking")
