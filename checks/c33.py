"""C33: trie roots."""
from symx import SxCheck


def run(tier):
    ch = SxCheck("C33", tier, "mpt")
    jobs = [("root_index", "one or two entries with keys RLP(i), i below 256"), ("root_small", "one to three entries, two-nibble keys over three letters, embedded nodes"), ("root_one", "one entry, keys of 0..64 nibbles, values of 0..256 bytes"),
            ("trie_clone", "copies and what happens to the original, with cached hashes"), ("root_long", "three entries with keys of 64 nibbles"), ("root_cached", "an update after the root was computed"),
            ("root_shapes", "one to three entries, three-nibble keys"), ("root_std", "StandardTrie, one to three entries"), ("root_sizes", "values around every length limit of RLP")]
    if tier == "thorough":
        jobs = [("root_four", "four entries, three-nibble keys"), ("root_cached_long", "two updates after the root was computed")] + jobs
    ch.run(jobs, "mpt_trie", seconds=600 if tier == "quick" else 3000)
    ch.bound("tries of up to three entries (four thorough); values of 1, 2, 27..33, 55, 56, 255..260 bytes whose first and last bytes are symbolic; keccak256 is an uninterpreted injective function")
    ch.assumptions.append("keccak256 has no collisions among the inputs met on a path")
    ch.outside += ["keys one of which is a prefix of another", "tries of more entries"]
    return ch.finish()
