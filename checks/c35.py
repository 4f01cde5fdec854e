"""C35: tries rebuilt from proofs."""
from symx import SxCheck


def run(tier):
    ch = SxCheck("C35", tier, "mpt")
    jobs = [("build_proof_small", "two entries whose nodes may be embedded"), ("build_proof", "three entries, two-nibble keys"), ("build_proof_long", "two entries with keys of 64 nibbles, with short-node variants"),
            ("build_proof_short", "two entries, with short-node variants")]
    if tier == "thorough":
        jobs = [("build_proof_three", "three entries, three-nibble keys"), ("build_proof_small_three", "three entries whose nodes may be embedded")] + jobs
    ch.run(jobs, "mpt_trie", seconds=600 if tier == "quick" else 3000)
    ch.bound("tries of up to three entries; the proof of any one key (in the trie or not), and the proofs of all keys; keccak256 takes one fixed value per class of equal inputs")
    ch.assumptions.append("keccak256 has no collisions among the inputs met on a path; the seed of std's hash maps does not matter (one is used)")
    ch.outside += ["node data that is not a proof of the given root (the builder trusts it)"]
    return ch.finish()
