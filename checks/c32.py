"""C32: partial tries as maps."""
from symx import SxCheck


def run(tier):
    ch = SxCheck("C32", tier, "mpt")
    jobs = [("trie_history_index", "two steps, keys RLP(i) for every index below 256"), ("trie_history_wide", "two steps, one-nibble keys over all nibbles"),
            ("trie_history_long", "three steps, keys of 64 nibbles that differ at one of four depths"), ("trie_history_abc", "three steps, two-nibble keys over three letters"),
            ("trie_history", "three steps, three-nibble keys over two letters"), ("trie_history_4", "three steps, four-nibble keys over two letters"),
            ("trie_history_std", "three steps on StandardTrie"), ("trie_two_keys_near", "two keys of 64 nibbles that differ first at one of three depths")]
    if tier == "thorough":
        jobs = [("trie_two_keys", "any two keys of 64 nibbles"), ("trie_history_deep", "four steps, three-nibble keys over two letters"), ("trie_history_five", "five steps, two-nibble keys over two letters")] + jobs
    ch.run(jobs, "mpt_trie", seconds=600 if tier == "quick" else 3000)
    ch.bound("histories of up to three insertions and deletions (five thorough) and a query of any key of the same form; keys of 1 to 4 nibbles, 64 nibbles, or RLP of an index; values of one symbolic byte")
    ch.outside += ["keys one of which is a prefix of another (the crate does not support them)", "empty values", "longer histories"]
    return ch.finish()
