"""C31: nibble keys."""
from symx import SxCheck


def run(tier):
    ch = SxCheck("C31", tier, "mpt")
    ch.run([("nib_split", "every length 0..64 and split point"), ("nib_range", "every range of keys of length 0,1,2,3,15,16,17,33,63,64"),
            ("nib_cmp", "pairs of keys, lengths 0,1,2,3,15,16,17,33,63,64"), ("nib_get", "every length 0..64"), ("nib_push", "every length 0..63"),
            ("nib_trunc_over", "dropping 1..3 nibbles too many"), ("nib_hex_prefix", "every length 0..64, leaf or not"), ("nib_hex_prefix_bad", "every flag nibble, 1..34 bytes"),
            ("nib_bytes", "0..34 bytes"), ("nib_h256", "every H256/U256"), ("nib_int", "every u64")], "mpt_trie")
    ch.bound("keys of up to 64 nibbles (66 from bytes), every value of every nibble")
    ch.outside += ["formatting and string parsing", "pairs of keys of other lengths in the comparisons, ranges of keys of other lengths"]
    return ch.finish()
