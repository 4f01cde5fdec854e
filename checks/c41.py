"""C41: serialized and hashed-out sparse Merkle trees."""
from symx import SxCheck


def run(tier):
    ch = SxCheck("C41", tier, "smt")
    jobs = [("smt_serial_comb", "four entries, pruned to two keys"),
            ("smt_hash_near", "four entries, any node hashed out"),
            ("smt_hash_comb", "four entries, any node hashed out"),
            ("smt_serial_near", "three entries, pruned to two keys"),
            ("smt_hash_far", "three entries that part at levels 9..11"),
            ("smt_serial_far", "two entries that part at level 9"),
            ("smt_serial_one", "one entry"),
            ("smt_empty", "empty tree")]
    if tier == "thorough":
        jobs = [("smt_serial_four", "five entries, pruned to three keys")] + jobs
    ch.run(jobs, "smt_trie", seconds=600 if tier == "quick" else 3000)
    ch.bound("trees of up to four entries (five thorough), pruning lists of up to two keys (three thorough) present or absent, every node of a tree hashed out; values with two symbolic bytes")
    ch.assumptions.append("the Poseidon permutation has no collisions among the inputs met on a path, and no output of it equals a constant of the code")
    ch.outside += ["updates below or next to a hash node (the caller must set hashes first and keep away from them)", "larger trees"]
    return ch.finish()
