"""C34: subsets of tries."""
from symx import SxCheck


def run(tier):
    ch = SxCheck("C34", tier, "mpt")
    jobs = [("subset_two_small", "three subsets of one trie"), ("subset_root_two", "values of both sizes, two-nibble keys"), ("subset_stateless", "an update on the subset and on the whole trie"), ("subset_hides", "what is hashed out"),
            ("subset_sequence", "no trace of earlier subsets"), ("subset_hash_key", "a subset of a subset")]
    if tier == "thorough":
        jobs = [("subset_root", "values of both sizes, three-nibble keys"), ("subset_two", "three subsets of one trie, three letters")] + jobs
    ch.run(jobs, "mpt_trie", seconds=600 if tier == "quick" else 3000)
    ch.bound("tries of up to three entries with keys of two or three nibbles; one key, two keys and no key asked for; keccak256 is an uninterpreted injective function")
    ch.assumptions.append("keccak256 has no collisions among the inputs met on a path")
    ch.outside += ["deletions under OnOrphanedHashNode::CollapseToExtension (the caller vouches for the sibling)", "keys one of which is a prefix of another", "tries of more entries"]
    return ch.finish()
