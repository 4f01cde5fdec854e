"""C42: SMT keys, bit strings and bytecode hashes."""
from symx import SxCheck


def run(tier):
    ch = SxCheck("C42", tier, "smt")
    jobs = [("key_join_deep", "keys split at every depth from 8"),
            ("key_join", "keys split at depths 0..7"),
            ("bits_add", "concatenation"),
            ("code_167", "codes of 166..169 bytes"),
            ("bits_common", "common prefixes"),
            ("bits_stack", "push, pop, read"),
            ("code_110", "codes of 110..113 bytes"),
            ("key_accounts", "balance, nonce, code and code length keys"),
            ("key_slots", "storage keys"),
            ("key_words", "conversions to words"),
            ("key_split", "path bits"),
            ("bits_from", "bits of a hash"),
            ("db_nodes", "nodes of the database"),
            ("code_short", "codes of 2..9 bytes"),
            ("code_0", "empty code"),
            ("code_1", "one byte"),
            ("code_54", "54 bytes"),
            ("code_55", "55 bytes"),
            ("code_56", "56 bytes"),
            ("code_57", "57 bytes")]
    ch.run(jobs, "smt_trie", seconds=600 if tier == "quick" else 3000)
    ch.bound("every address, slot and canonical key; codes of 0..9, 54..57, 110..113 and 166..169 bytes; bit strings of up to 256 bits at boundary lengths")
    ch.assumptions.append("the Poseidon permutation has no collisions among the inputs met on a path, and no output of it equals a constant of the code")
    ch.outside += ["other code lengths"]
    return ch.finish()
