"""C38: the payloads of a block."""
from symx import SxCheck

MSG = {3: "entrypoint fails on a well-formed trace", 10: "fewer than two batches", 11: "batch larger than the hint", 12: "too many transactions", 13: "transaction number does not chain",
       14: "gas does not chain", 15: "signed transactions out of order", 16: "transactions missing", 20: "state root before", 21: "transactions root before", 22: "receipts root before",
       23: "storage root before", 30: "state root after", 31: "transactions root after", 32: "receipts root after", 33: "gas used after", 34: "withdrawals in the wrong batch", 35: "withdrawal amount",
       40: "contract code under a wrong hash", 41: "no empty code", 42: "a touched account cannot be read", 43: "a touched slot cannot be read", 44: "code used is missing", 45: "storage trie missing",
       46: "storage root cannot be recomputed from the masked trie", 47: "state root cannot be recomputed from the masked trie", 48: "index trie rejects the update", 49: "index trie roots cannot be recomputed",
       50: "a deletion meets a hashed-out node", 51: "an insertion meets a hashed-out node"}


def run(tier):
    ch = SxCheck("C38", tier, "dec")
    ch.msg.update(MSG)
    jobs = [("block_storage_pair", "two transactions of one batch, each writing or deleting slots of a contract"),
            ("block_accounts", "two transactions that create, change, destroy or touch accounts, failed ones included"),
            ("block_storage", "two transactions that write or delete a slot, in one batch or two"),
            ("block_one", "one transaction, every kind of change to every kind of account"),
            ("block_beacon", "beacon roots: slots present or not, zero root, contract touched by a transaction"),
            ("block_withdrawals", "up to two withdrawals, no transaction to two"),
            ("block_batches", "no transaction to five, hints 1 to 6"),
            ("block_empty", "no transaction")]
    if tier == "thorough":
        jobs = [("block_two", "two transactions, every kind of change to every kind of account"),
                ("block_accounts_three", "three transactions that create, change or destroy accounts"),
                ("block_storage_three", "three transactions that write or delete a slot")] + jobs
    ch.run(jobs, "trace_decoder", seconds=600 if tier == "quick" else 3000)
    ch.bound("blocks of up to two transactions (three thorough; five of one kind) over six accounts and four slots whose hashes share their first nibbles; balances, values, nonces, gas and transaction bytes symbolic (8 to 32 bits each)")
    ch.assumptions += ["keccak256 of symbolic data has no collisions among the inputs met on a path", "the prover applies deletions before insertions and collapses onto hash nodes as final_tries.asm and delete_branch.asm do"]
    ch.outside += ["longer blocks", "feature cdk_erigon", "hash nodes in the input tries"]
    return ch.finish()
