"""All proof jobs. Paths are relative to /verif (file) and /repo (srcs)."""
from runner import REPO
JOBS = []
from props import PROPS
TRUSTED = ["CBMC 6.11 (goto-cc C front end, contract instrumentation by goto-instrument, symbolic execution) and its SAT back end",
           "machine model: 64-bit little endian, malloc succeeds (the code exits otherwise)"]


def job(name, props, file, fns, what="", **kw):
    JOBS.append(dict(name=name, props=props, file=file, fns=fns, what=what, **kw))


def src(macro, path):
    return '%s="%s/%s"' % (macro, REPO, path)


V = "src/chains/eth/verifier/"
U = "src/util/"
job("rlp_decode", ["C05"], "units/rlp_decode.c", ["rlp_decode"], "n-th item of any RLP sequence, exact slice or error",
    defs=[src("REPO_RLP", V + "rlp.c")],
    t1=dict(harness="h_rlp_decode", loops=["rlp_decode"], unwind=10),
    t2=dict(harness="h_rlp_decode", unwind=9, defs=["N=5", "VP_EXACT_MAX=5"], srcs=[U + "bytes.c"]))
MK = [src("REPO_SSZ_MERKLE", U + "ssz_merkle.c")]
MF = ["ssz_verify_multi_merkle_proof", "ssz_verify_single_merkle_proof", "merkle_proof", "merkle_get_data", "ssz_add_multi_merkle_proof", "gindex_add", "gindex_del", "gindex_indexOf"]
for a, b in ((2, 4), (4, 6), (6, 8)):
    job("merkle_multi_%d" % a, ["C01"], "units/merkle_proof.c", MF, "multi proof of every pair of leaves in a tree of depth 2, every content, any hash function",
        defs=MK, bounded="2 leaves, gindex < 8 (first leaf %d..%d), every witness count up to 4" % (a, b - 1),
        t2=dict(harness="h_multi", unwind=34, defs=["D=3", "L=2", "A0=%d" % a, "A1=%d" % b], srcs=[U + "bytes.c"]))
job("merkle_single", ["C01"], "units/merkle_proof.c", MF, "single branch", defs=MK, bounded="gindex 1, 3, 6, 13, 54; every content, any hash function",
    t2=dict(harness="h_single", unwind=34, defs=["A0=1", "A1=2"], srcs=[U + "bytes.c"]))
job("merkle_proof", ["C01"], "units/merkle_proof.c", ["merkle_proof"],
    "node computed from an accepted proof, any number of leaves and witnesses, any depth", defs=[src("REPO_SSZ_MERKLE", U + "ssz_merkle.c")],
    t1=dict(harness="h_merkle_proof", loops=["merkle_proof"], calls={"merkle_get_data": "vp_merkle_get_data"}, unwind=5, unwindset={"vp_draw_const.0": 33}))
job("merkle_get_data", ["C01"], "units/merkle_proof.c", ["merkle_get_data"],
    "lookup of a node by gindex", defs=[src("REPO_SSZ_MERKLE", U + "ssz_merkle.c")],
    t1=dict(harness="h_get_data", loops=["merkle_get_data"], unwind=5))
PAT = ["patricia_verify", "handle_node", "embedded_node", "patricia_to_nibbles", "patricia_match_nibbles", "count_nibbles"]
PC = {8: 0x3300, 12: 0x0003, 14: 0xcc02, 16: 0x3300}
KC = {1: 0x0103, 7: 0x0105, 8: 0x3, 14: 0x3, 16: 0x11}
for i in range(17):
    job("patricia_%d" % i, ["C02"], "units/patricia.c", PAT, "proof shape %d: every key, path, flag, value and hash, any hash function" % i,
        bounded="one concrete arrangement of up to 3 nodes, keys of 2 nibbles (4 for shapes 1, 7, 16)", defs=["SHAPE=%d" % i] + (["PCASES=0x%x" % PC[i]] if i in PC else []) + (["KCASES=0x%x" % KC[i]] if i in KC else []) + ["KLEN=%d" % (2 if i in (1, 7, 16) else 1)],
        t2=dict(harness="h_patricia", unwind=20, hunwind=160, flags=["--max-field-sensitivity-array-size", "180"], srcs=[V + "patricia.c", V + "rlp.c", U + "ssz.c", U + "bytes.c"]))
PD = [src("REPO_PATRICIA", V + "patricia.c")]
job("patricia_match", ["C02"], "units/patricia.c", ["patricia_match_nibbles"], "length of the common prefix", defs=PD, t1=dict(harness="h_match", loops=["patricia_match_nibbles"], unwind=3))
job("patricia_count", ["C02"], "units/patricia.c", ["count_nibbles"], "number of nibbles", defs=PD, t1=dict(harness="h_count", loops=["count_nibbles"], unwind=3))
job("patricia_nibbles", ["C02"], "units/patricia.c", ["patricia_to_nibbles"], "nibbles of a path of any length", defs=PD,
    t1=dict(harness="h_nibbles", loops=["patricia_to_nibbles"], unwind=3))
for n in (2, 17, 0):
    job("patricia_node_%d" % n, ["C02"], "units/patricia.c", ["handle_node", "embedded_node"], "one step: any node with %s, any key" % (("%d items" % n) if n else "another number of items"), defs=PD + ["NODE_N=%d" % n],
        t1=dict(harness="h_node", unwind=33, solver="minisat2",
                calls={"rlp_decode": "vp_rlp_decode", "patricia_to_nibbles": "vp_to_nibbles", "patricia_match_nibbles": "vp_match", "count_nibbles": "vp_count"}))
job("patricia_chain", ["C02"], "units/patricia.c", ["patricia_verify"], "chain of any number of nodes", defs=PD,
    t1=dict(harness="h_verify", loops=["patricia_verify"], unwind=33,
            calls={"ssz_len": "vp_ssz_len", "ssz_at": "vp_ssz_at", "keccak": "vp_keccak", "handle_node": "vp_handle_node", "patricia_to_nibbles": "vp_path_nibbles"}))
SZ = ["ssz_is_valid", "ssz_at", "ssz_len", "ssz_union", "ssz_get", "ssz_get_field", "ssz_is_dynamic", "ssz_fixed_length"]
for i, n in enumerate([14, 16, 8, 9, 6, 8, 5, 4, 6, 5, 19, 22, 11, 5, 18, 3]):
    job("ssz_%d" % i, ["C03", "C04"], "units/ssz.c", SZ, "type %d of units/ssz.c: every byte string up to %d bytes" % (i, n), defs=["DEF=%d" % i, "N=%d" % n],
        bounded="one type, byte strings up to %d bytes" % n,
        t2=dict(harness="h_ssz", unwind=12, hunwind=40, defs=["VP_EXACT_MAX=%d" % n], srcs=[U + "ssz.c", U + "ssz_merkle.c", U + "bytes.c"], nrepo=[U + "json.c"], calls={"bprintf": "vp_bprintf"},
                unwindset={"strcmp.0": 8, "ssz_is_valid": 3, "ssz_is_dynamic": 3, "ssz_fixed_length": 3}))
for m in ("dyn", "fix"):
    job("ssz_at_" + m, ["C03"], "units/ssz_t1.c", ["ssz_at"], "any index of any list or vector of %s elements, any bytes" % ("dynamic" if m == "dyn" else "fixed size (1, 2, 4, 8, 20, 32, 48, 96, 112, 256)"), defs=["AT", src("REPO_SSZ", U + "ssz.c")] + (["DYN"] if m == "dyn" else []),
        t1=dict(harness="h_at_" + m, unwind=11, calls={"ssz_len": "vp_len", "ssz_is_dynamic": "vp_is_dynamic", "ssz_fixed_length": "vp_fixed_length", "uint32_from_le": "vp_le32"}))
job("ssz_get_field", ["C03"], "units/ssz_t1.c", ["ssz_get_field"], "any field of any container, any bytes", defs=[src("REPO_SSZ_MERKLE", U + "ssz_merkle.c")],
    t1=dict(harness="h_field", loops=["ssz_get_field"], unwind=9, calls={"ssz_is_dynamic": "vp_is_dynamic", "ssz_fixed_length": "vp_fixed_length", "uint32_from_le": "vp_le32"}))
HD = ["c4_verify_header", "c4_verify_headers_proof", "c4_verify_historic_proof", "c4_verify_blockroot_signature", "eth_calculate_domain", "calculate_signing_message", "c4_chain_fork_id", "is_already_validated", "add_to_blockhash_cache"]
HS = [V + "beacon_header.c", "src/chains/eth/ssz/beacon_types.c", "src/chains/eth/ssz/beacon_denep.c", "src/chains/eth/ssz/beacon_electra.c", U + "ssz.c", U + "ssz_merkle.c", U + "bytes.c", U + "chains.c"]
HU = dict(unwind=33, hunwind=170, flags=["--max-field-sensitivity-array-size", "600"], calls={"bprintf": "vp_bprintf"}, unwindset={"strcmp.0": 30, "hash_tree_root": 3, "merkle_hash": 5, "ssz_is_dynamic": 4, "ssz_fixed_length": 4, "ssz_get.0": 30}, nrepo=[U + "json.c", U + "state.c", U + "logger.c"])
TY = src("VERIFY_TYPES_C", "src/chains/eth/ssz/verify_types.c")
for c in (1, 11155111, 100, 10200):
    job("header_direct_%d" % c, ["C07"], "units/header.c", HD, "direct signature, chain %d, every header and signature" % c, defs=[TY, "union=struct", "CHAIN_NO=%d" % c, "HEADERS=0"],
        t2=dict(HU, harness="h_direct", srcs=HS, complete=True))
for n in range(4):
    job("header_chain_%d" % n, ["C07"], "units/header.c", HD, "signature of a later header, %d headers in between" % n, defs=[TY, "union=struct", "CHAIN_NO=1", "ROOTS", "HEADERS=%d" % n], bounded="%d headers in between" % n,
        t2=dict(HU, harness="h_headers", srcs=HS, calls={"bprintf": "vp_bprintf", "ssz_hash_tree_root": "vp_htr"}))
job("header_chain_verifier", ["C07"], "units/header.c", HD, "signature of a later header, 1 header in between, build without prover", defs=["!PROVER", "!PROVER_CACHE", TY, "union=struct", "CHAIN_NO=1", "ROOTS", "HEADERS=1"], bounded="1 header in between",
    t2=dict(HU, harness="h_headers", srcs=HS, calls={"bprintf": "vp_bprintf", "ssz_hash_tree_root": "vp_htr"}))
for c in (1, 100):
    job("header_historic_%d" % c, ["C07"], "units/header.c", HD, "branch to the historical summaries, chain %d" % c, defs=[TY, "union=struct", "CHAIN_NO=%d" % c, "HISTORIC", "ROOTS", "HEADERS=0"],
        t2=dict(HU, harness="h_historic", srcs=HS, complete=True, calls={"bprintf": "vp_bprintf", "ssz_verify_multi_merkle_proof": "vp_multi", "ssz_hash_tree_root": "vp_htr"}))
job("header_twice", ["C07"], "units/header.c", HD, "two headers in a row (cache of verified headers)", defs=[TY, "union=struct", "CHAIN_NO=1", "ROOTS", "TWICE", "HEADERS=0"], bounded="two checks in a row, headers that differ in at most one byte",
    t2=dict(HU, harness="h_twice", srcs=HS, calls={"bprintf": "vp_bprintf", "ssz_hash_tree_root": "vp_htr"}))
AD = ["verify_account_proof", "eth_verify_account_proof_exec", "eth_verify_state_proof", "eth_account_verify_data", "verify_storage", "eth_account_get_field", "get_leaf"]
AS = [V + "verify_account_proof.c", V + "eth_account.c", V + "rlp.c", "src/chains/eth/ssz/beacon_types.c", "src/chains/eth/ssz/beacon_denep.c", "src/chains/eth/ssz/beacon_electra.c",
      U + "ssz.c", U + "ssz_merkle.c", U + "ssz_builder.c", U + "bytes.c", U + "chains.c", U + "json.c"]
AU = dict(harness="h_account", srcs=AS, complete=True, unwind=33, hunwind=330, flags=["--max-field-sensitivity-array-size", "900"],
          calls={"bprintf": "vp_bprintf", "ssz_verify_multi_merkle_proof": "vp_multi", "ssz_verify_single_merkle_proof": "vp_single"},
          unwindset={"strcmp.0": 40, "strncmp.0": 10, "ssz_is_dynamic": 4, "ssz_fixed_length": 4, "ssz_get.0": 30, "find_end.0": 240, "json_next_value.0": 20, "hex_to_bytes.0": 70, "next_non_whitespace_token.0": 4}, nrepo=[U + "state.c", U + "logger.c"])
def account(name, what, bounded, **d):
    job("account_" + name, ["C11"], "units/account.c", AD, what, defs=[TY, "union=struct", "__NO_CTYPE"] + ["%s=%s" % kv for kv in d.items()], bounded=bounded, t2=AU)
AB = "one request (address, key, block and method fixed), item lengths as given; every proof content and hash"
account("balance", "eth_getBalance, latest block", AB, METHOD=0, BLOCK=0)
account("balance_none", "eth_getBalance, no such account, block by number", AB, METHOD=0, BLOCK=2, AR=2, BL=32)
account("balance_hash", "eth_getBalance, block by hash", AB, METHOD=0, BLOCK=1, BL=32)
account("balance_inv", "eth_getBalance, invalid account proof", AB, METHOD=0, BLOCK=0, AR=0, EXPECT_REJECT=1)
account("balance_long", "eth_getBalance, oversized item", AB, METHOD=0, BLOCK=0, BL=33, EXPECT_REJECT=1)
account("shash_long", "eth_getBalance, oversized storage hash", AB, METHOD=0, BLOCK=0, SHL=33, EXPECT_REJECT=1)
account("nonce", "eth_getTransactionCount, block by number", AB, METHOD=1, BLOCK=2, NL=4)
account("nonce_none", "eth_getTransactionCount, no such account", AB, METHOD=1, BLOCK=0, AR=2)
account("code", "eth_getCode", AB, METHOD=2, BLOCK=0, CODE=5)
account("code_32", "eth_getCode, data of the size of a hash, block by hash", AB, METHOD=2, BLOCK=1, CODE=32)
account("code_type", "eth_getCode, data of another type", AB, METHOD=2, BLOCK=0, CODE=32, DT=3, EXPECT_REJECT=1)
account("code_none", "eth_getCode, no such account", AB, METHOD=2, BLOCK=0, CODE=0, AR=2)
account("code_missing", "eth_getCode without data", AB, METHOD=2, BLOCK=0, EXPECT_REJECT=1)
account("storage", "eth_getStorageAt, value exists", AB, METHOD=3, BLOCK=0, NST=1)
account("storage_hash", "eth_getStorageAt, value exists, block by hash", AB, METHOD=3, BLOCK=1, NST=1, SVL=32)
account("storage_none", "eth_getStorageAt, no such value", AB, METHOD=3, BLOCK=2, NST=1, SR=2)
account("storage_inv", "eth_getStorageAt, invalid proof", AB, METHOD=3, BLOCK=0, NST=1, SR=0, EXPECT_REJECT=1)
account("storage_long", "eth_getStorageAt, oversized value", AB, METHOD=3, BLOCK=0, NST=1, SVL=33, EXPECT_REJECT=1)
account("storage_empty", "eth_getStorageAt, no storage proof", AB, METHOD=3, BLOCK=0, NST=0)
account("storage_noacc", "eth_getStorageAt, no account", AB, METHOD=3, BLOCK=0, NST=0, AR=2)
account("storage_noacc1", "eth_getStorageAt, no account, storage proof given", AB, METHOD=3, BLOCK=0, NST=1, AR=2, EXPECT_REJECT=1)
account("proof_0", "eth_getProof, no keys", AB, METHOD=4, BLOCK=0, NST=0)
account("proof_1", "eth_getProof, one key", AB, METHOD=4, BLOCK=2, NST=1)
account("proof_2", "eth_getProof, two keys, no values", AB, METHOD=4, BLOCK=0, NST=2, SR=2)
account("proof_none", "eth_getProof, no account", AB, METHOD=4, BLOCK=1, NST=0, AR=2)
account("other", "another method", AB, METHOD=5, BLOCK=0, EXPECT_REJECT=1)
BD = ["verify_block_proof", "verify_block_number_proof", "eth_set_block_data", "create_txs_builder", "matches_blocknumber"]
BS = [V + "verify_block.c"] + AS[3:]
BU = dict(AU, harness="h_block", srcs=BS, hunwind=1100, flags=["--max-field-sensitivity-array-size", "1600"], calls=dict(AU["calls"], ssz_hash_tree_root="vp_htr"))
def block(name, what, harness="h_block", **d):
    job("block_" + name, ["C13"], "units/block.c", BD, what, defs=[TY, "union=struct", "__NO_CTYPE"] + ["%s=%s" % kv for kv in d.items()], bounded="one request (block and method fixed), lengths of lists and transactions as given; every proof content and hash",
        t2=dict(BU, harness=harness))
block("number", "eth_blockNumber", harness="h_number", METHOD=2, BLOCK=0)
block("number_other", "another method", harness="h_number", METHOD=1, BLOCK=0, EXPECT_REJECT=1)
block("latest", "latest block, 2 transactions, 1 withdrawal", METHOD=1, BLOCK=0, NT=2, NW=1)
block("by_number", "block by number, no transactions", METHOD=1, BLOCK=2)
block("by_hash", "block by hash, 1 transaction", METHOD=0, BLOCK=1, NT=1)
block("txs", "block by hash, 2 complete transactions", METHOD=0, BLOCK=1, NT=2, TXS=1)
block("gnosis", "gnosis block by number, 1 complete transaction, 2 withdrawals", METHOD=1, BLOCK=2, NT=1, TXS=1, NW=2, GNOSIS=1)
block("given", "block given by the prover", METHOD=1, BLOCK=2, GIVEN=1)
block("other", "another method", METHOD=2, BLOCK=0, EXPECT_REJECT=1)
TD = ["verify_tx_proof", "verify_args", "verify_merkle_proof", "create_eth_tx_data", "c4_tx_verify_tx_hash"]
TS = [V + "verify_tx_proof.c", V + "eth_tx.c", V + "rlp.c"] + AS[3:]
TU = dict(BU, harness="h_tx", srcs=TS, calls=dict(BU["calls"], c4_write_tx_data_from_raw="vp_write"))
def tx(name, what, **d):
    job("tx_" + name, ["C12"], "units/tx.c", TD, what, defs=[TY, "union=struct", "__NO_CTYPE"] + ["%s=%s" % kv for kv in d.items()], bounded="one request (hash, block and index fixed), a transaction of 83 bytes; every proof content and hash", t2=TU)
tx("hash", "transaction by hash", METHOD=0)
tx("block_hash", "transaction by block hash and index", METHOD=1)
tx("block_number", "transaction by block number and index", METHOD=2)
tx("other", "another method", METHOD=3, EXPECT_REJECT=1)
tx("none", "proof without request", METHOD=-1)
tx("given", "transaction given by the prover", METHOD=0, GIVEN=1, EXPECT_REJECT=1)
DU = dict(BU, harness="h_decode", srcs=[V + "eth_tx.c", V + "rlp.c"] + AS[3:], calls={"bprintf": "vp_bprintf"}, unwindset=dict(BU["unwindset"]))
def decode(name, what, **d):
    job("tx_decode_" + name, ["C12"], "units/tx_decode.c", ["c4_write_tx_data_from_raw", "c4_tx_create_from_address", "get_rlp_field", "build_access_list_ssz", "build_authorization_list_ssz", "build_blob_hashes_from_rlp"], what,
        defs=[TY, "union=struct", "__NO_CTYPE"] + ["%s=%s" % kv for kv in d.items()], bounded="lengths of the items and lists as given, v and chain id fixed; every content", t2=DU)
decode("legacy", "legacy transaction, mainnet", T=0, V=38)
decode("legacy_27", "legacy transaction without chain id, parity 0", T=0, V=27, PL=4)
decode("legacy_28", "legacy transaction without chain id, parity 1", T=0, V=28, TOL=0)
decode("legacy_big", "legacy transaction, sepolia", T=0, V=22310257, SL=30)
decode("1", "access list transaction, 1 entry with 2 keys", T=1, V=1, NA=1, NK=2)
decode("1_two", "access list transaction, 2 entries without keys", T=1, V=0, NA=2, NK=0, RL=31)
decode("2", "fee market transaction, parity 1", T=2, V=1, IL=60)
decode("2_create", "fee market transaction creating a contract, 1 entry with a key", T=2, V=0, TOL=0, NA=1, NK=1, RL=31, SL=31, VL=32)
decode("3", "blob transaction with 2 blobs", T=3, V=0, NB=2)
decode("4", "set code transaction with 2 authorizations", T=4, V=1, NU=2)
decode("deposit", "deposit", T=0x7e, V=1)
decode("deposit_create", "deposit creating a contract", T=0x7e, V=0, TOL=0, VL=3)
decode("long_r", "signature with an oversized item", T=2, V=1, RL=33, EXPECT_REJECT=1)
decode("long_s", "legacy signature with an oversized item", T=0, V=37, SL=40, EXPECT_REJECT=1)
RD = ["verify_receipt_proof", "verify_merkle_proof", "c4_tx_verify_receipt_data", "c4_tx_verify_receipt_proof", "c4_tx_verify_tx_hash", "get_and_remove_tx_type"]
RS = [V + "verify_receipt_proof.c", V + "eth_tx.c", V + "rlp.c"] + AS[3:]
RU = dict(BU, harness="h_receipt", srcs=RS, calls=dict(BU["calls"], c4_tx_create_from_address="vp_from", c4_eth_create_tx_path="vp_path"), unwindset=dict(BU["unwindset"], **{"memcmp.0": 260, "bytes_eq.0": 260}))
def receipt(name, what, **d):
    job("receipt_" + name, ["C16"], "units/receipt.c", RD, what, defs=[TY, "union=struct", "__NO_CTYPE", "RECEIPT"] + ["%s=%s" % kv for kv in d.items()], bounded="one request (hash fixed), number and lengths of logs as given; every proof content and hash", t2=RU)
receipt("0", "legacy transaction, no logs", METHOD=0, T=0, NLOG=0)
receipt("2", "fee market transaction, 1 log with a topic", METHOD=0)
receipt("1", "access list transaction creating a contract, 1 log without topics, failed", METHOD=0, T=1, TOL=0, NT=0, STATUS=0x80)
receipt("3", "blob transaction, 2 logs with 2 topics", METHOD=0, T=3, NLOG=2, NT=2, DLEN=32)
receipt("4", "set code transaction, 1 log with 4 topics, proof without request", METHOD=-1, T=4, NT=4, DLEN=0)
receipt("deposit", "deposit, 1 log", METHOD=0, T=0x7e)
receipt("fewer", "the answer lacks a log", METHOD=0, FEWER=1, EXPECT_REJECT=1)
receipt("none", "no such receipt", METHOD=0, PR=2, EXPECT_REJECT=1)
receipt("invalid", "invalid patricia proof", METHOD=0, PR=0, EXPECT_REJECT=1)
receipt("by_hash", "request for the transaction", METHOD=1, EXPECT_REJECT=1)
receipt("type", "data of another type", METHOD=0, DT=7, EXPECT_REJECT=1)
for _n, _w, _d in (("topics_less", "the log of the answer lacks the last topic", dict(NT=2, RNT=1)), ("topics_more", "the log of the answer has one more topic", dict(NT=1, RNT=2)),
                   ("data_less", "the data of the log of the answer is shorter", dict(DLEN=3, RDL=2)), ("data_more", "the data of the log of the answer is longer", dict(DLEN=3, RDL=4))):
    receipt(_n, _w, METHOD=0, EXPECT_REJECT=1, **_d)
LD = ["verify_logs_proof", "verif_block", "verify_tx", "verify_merkle_proof", "has_proof", "c4_tx_verify_log_data", "matches", "c4_tx_verify_receipt_proof"]
LU = dict(RU, harness="h_logs", srcs=[V + "verify_logs_proof.c"] + RS[1:], calls=dict(RU["calls"], ssz_from_json="vp_from_json"))
def logs(name, what, **d):
    d.setdefault("DT", 6)
    job("logs_" + name, ["C16"], "units/receipt.c", LD, what, defs=[TY, "union=struct", "__NO_CTYPE", "LOGS"] + ["%s=%s" % kv for kv in d.items()], bounded="number of blocks, transactions, logs and topics as given; every proof content and hash", t2=dict(LU, flags=["--max-field-sensitivity-array-size", "3300"]) if d.get("BLOCKS") else LU)
logs("get", "eth_getLogs: 1 log", METHOD=2)
for _n, _w, _d in (("topics_less", "the log of the answer lacks the last topic", dict(NT=2, RNT=1)), ("topics_more", "the log of the answer has one more topic", dict(NT=1, RNT=2)),
                   ("data_less", "the data of the log of the answer is shorter", dict(DLEN=3, RDL=2)), ("data_more", "the data of the log of the answer is longer", dict(DLEN=3, RDL=4))):
    logs(_n, _w, METHOD=2, EXPECT_REJECT=1, **_d)
logs("get_2", "eth_getLogs: 2 logs of a legacy transaction with 2 logs", METHOD=2, T=0, NLOG=2, NRES=2, CLAIM=0x001000)
logs("get_txs", "eth_getLogs: logs of 2 transactions of a block", METHOD=2, NTX=2, NT=0, NRES=2, CLAIM=0x000010)
logs("get_roots", "eth_getLogs: receipts of different roots", METHOD=2, NTX=2, NT=0, NRES=1, ROOTS=1)
logs("get_blocks", "eth_getLogs: logs of 2 blocks", METHOD=2, BLOCKS=2, NT=0, T=1, NRES=1, CLAIM=0x100, INCOMPLETE=1)
logs("get_empty", "eth_getLogs: no logs found", METHOD=2, NRES=0, NLOG=0)
logs("verify", "eth_verifyLogs: 1 log", METHOD=3)
logs("verify_topics", "eth_verifyLogs: 1 log with 2 topics of a blob transaction with 2 logs", METHOD=3, T=3, NT=2, NLOG=2, CLAIM=0x001)
logs("verify_given", "eth_verifyLogs: the prover gives other logs", METHOD=3, GIVEN=1, EXPECT_REJECT=1)
logs("no_request", "proof without request", METHOD=-1)
logs("other", "another method", METHOD=4, EXPECT_REJECT=1)
logs("type", "data of another type", METHOD=2, DT=5, EXPECT_REJECT=1)
logs("none", "no such receipt", METHOD=2, PR=2, EXPECT_REJECT=1)
logs("deposit", "eth_getLogs: log of a deposit", METHOD=2, T=0x7e)
job("tx_path", ["C12", "C16"], "units/tx_path.c", ["c4_eth_create_tx_path", "rlp_add_item"], "path of every index in the tries over transactions and receipts", defs=["__NO_CTYPE"],
    t2=dict(harness="h_path", srcs=[V + "eth_tx.c", V + "rlp.c", U + "bytes.c"], complete=True, unwind=34, hunwind=40, calls={"bprintf": "vp_bprintf"}, nrepo=[U + "ssz.c", U + "ssz_builder.c", U + "ssz_merkle.c", U + "json.c", U + "state.c", U + "logger.c", U + "chains.c"] + AS[3:6]))
ED = ["c4_verify_from_bytes", "c4_verify_init", "c4_verify", "c4_eth_verify", "c4_eth_get_method_type", "c4_get_chain_type_from_req", "c4_state_get_pending_request"]
ES = [V + "eth_verify.c", U + "state.c", "src/chains/eth/ssz/beacon_types.c", "src/chains/eth/ssz/beacon_denep.c", "src/chains/eth/ssz/beacon_electra.c", U + "ssz.c", U + "ssz_merkle.c", U + "bytes.c", U + "chains.c"]
EN = ["getBalance", "simulateTransaction", "chainId", "gasPrice", "unknown method", "call", "blockNumber"]
def entry(name, what, **d):
    job("entry_" + name, ["C14"], "units/verify.c", ED, what, defs=[TY, src("REPO_VERIFY", "src/verifier/verify.c"), "union=struct"] + ["ETH_" + x for x in "TX RECEIPT LOGS ACCOUNT CALL BLOCK UTIL".split()] + ["%s=%s" % kv for kv in d.items()],
        t2=dict(harness="h_entry", srcs=ES, complete=True, unwind=33, hunwind=330, flags=["--max-field-sensitivity-array-size", "300"], calls={"bprintf": "vp_message", "eth_ssz_verification_type": "vp_type"},
                unwindset={"strcmp.0": 50, "ssz_is_type": 3, "c4_state_get_pending_request.0": 4, "strlen.0": 80, "strcpy.0": 80, "ssz_is_dynamic": 4, "ssz_fixed_length": 4, "ssz_get.0": 30}, nrepo=[U + "json.c", U + "logger.c"]))
for pt, m in ((1, 0), (2, 0), (3, 4), (4, 0), (5, 5), (5, 1), (7, 0), (8, 6), (0, 2), (6, 2), (8, 2)):
    entry("%d_%d" % (pt, m), "proof type %d, method %s" % (pt, EN[m]), PT=pt, M=m)
for pt, m in ((0, 0), (6, 5), (9, 0), (0, 4)):
    entry("%d_%d" % (pt, m), "proof type %d, method %s: never answered" % (pt, EN[m]), PT=pt, M=m, EXPECT_REJECT=1)
for m in (0, 2, 3, 4, -1):
    entry("empty_%s" % (m if m >= 0 else "null"), "no request, method %s" % (EN[m] if m >= 0 else "NULL"), PT=0, M=m, EMPTY=1, **({} if m == 2 else {"EXPECT_REJECT": 1}))
for c in (100, 11155111, 10200):
    entry("chain_%d" % c, "chain %d" % c, PT=1, M=0, CHAIN_NO=c)
for c in (10, 5, 0):
    entry("chain_%d" % c, "unknown chain %d" % c, PT=1, M=0, CHAIN_NO=c, EXPECT_REJECT=1)
entry("null", "no method", PT=1, M=-1, EXPECT_REJECT=1)
entry("invalid", "invalid request", PT=1, M=0, BAD=1, EXPECT_REJECT=1)
for b in (2, 7, 256):
    entry("type_%d" % (b - 1), "request for chain type %d" % (b - 1), PT=1, M=0, BAD=b, EXPECT_REJECT=1)
job("entry_types", ["C14"], "units/verify.c", ["eth_ssz_verification_type"], "types of the kinds of proof and data", defs=[TY, src("REPO_VERIFY", "src/verifier/verify.c"), "PT=0", "M=0"],
    t2=dict(harness="h_types", srcs=ES, complete=True, unwind=12, nrepo=[U + "json.c", U + "logger.c"], calls={"bprintf": "vp_message"}))
for _n, _d in (("", []), ("_silent", ["!MESSAGES"])):
    job("entry_refuse" + _n, ["C14"], "units/verify.c", ["RETURN_VERIFY_ERROR", "c4_verify_free_data", "c4_state_free", "c4_state_add_error"], "a refused proof is an error, its message belongs to the context" + (" (build without messages)" if _d else ""),
        defs=[TY, src("REPO_VERIFY", "src/verifier/verify.c"), "PT=0", "M=0"] + _d, t2=dict(harness="h_refuse", srcs=ES, complete=True, unwind=12, nrepo=[U + "json.c", U + "logger.c"], calls={"bprintf": "vp_message"}))
