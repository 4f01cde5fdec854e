"""C36: sparse Merkle tree as a map with a canonical root."""
from symx import SxCheck


def run(tier):
    ch = SxCheck("C36", tier, "smt")
    jobs = [("smt_two_a", "two keys that part at every depth divisible by 4"),
            ("smt_removals_near", "removals from five entries that part in the first levels"),
            ("smt_history_comb", "three steps, five keys that part at levels 0, 1, 4, 7"),
            ("smt_two_sample", "two keys that part at every 17th depth"),
            ("smt_removals_comb", "removals from five entries"),
            ("smt_history_near", "three steps, four keys"),
            ("smt_history_far", "two steps, eight keys that part at levels 30..32"),
            ("smt_history_all8", "two steps, eight keys"),
            ("smt_one", "one key, full 256-bit values"),
            ("smt_removals_end", "removals, keys that part in the last levels"),
            ("smt_removals_far", "removals, keys that part at levels 21..23"),
            ("smt_empty", "empty tree")]
    if tier == "thorough":
        jobs = [("smt_history_four", "four steps, four keys"),
            ("smt_history_comb4", "four steps, six keys"),
            ("smt_removals_deep", "three removals from six entries"),
            ("smt_two_b", "two keys, depths 1 mod 4"),
            ("smt_two_c", "two keys, depths 2 mod 4"),
            ("smt_two_d", "two keys, depths 3 mod 4")] + jobs
    ch.run(jobs, "smt_trie", seconds=600 if tier == "quick" else 3000)
    ch.bound("histories of up to three steps (four thorough) over families of up to eight keys; two keys parting at every fourth depth (every depth thorough), removals from five entries; values with two symbolic bytes (256 symbolic bits for one key)")
    ch.assumptions.append("the Poseidon permutation has no collisions among the inputs met on a path, and no output of it equals a constant of the code")
    ch.outside += ["keys other than the concrete representatives", "longer histories", "hash nodes (C41)"]
    return ch.finish()
