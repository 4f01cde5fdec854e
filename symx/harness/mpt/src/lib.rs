//! Properties of mpt_trie, executed symbolically (cfg(symx)) or replayed natively.
use mpt_trie::nibbles::{Nibbles, NibblesIntern};
use rt::*;

pub mod nibbles;
pub mod trie;

/// A key as the list of its nibbles, first nibble first.
#[derive(Clone, Copy)]
pub struct L {
    pub n: usize,
    pub x: [u8; 80],
}
impl L {
    pub fn any(n: usize) -> L {
        let mut l = L { n, x: [0; 80] };
        let b: [u8; 80] = any();
        for i in 0..n {
            l.x[i] = b[i] & 15;
        }
        l
    }
    pub fn of(x: &[u8]) -> L {
        let mut l = L { n: x.len(), x: [0; 80] };
        l.x[..x.len()].copy_from_slice(x);
        l
    }
    pub fn s(&self) -> &[u8] {
        &self.x[..self.n]
    }
    /// The packed form: the list read as a big-endian hexadecimal number.
    pub fn nib(&self) -> Nibbles {
        let mut b = [0u8; 40];
        for k in 0..(self.n + 1) / 2 {
            let lo = self.x[self.n - 1 - 2 * k];
            b[k] = if 2 * k + 1 < self.n { lo | self.x[self.n - 2 - 2 * k] << 4 } else { lo };
        }
        let mut w = [0u64; 5];
        for k in 0..5 {
            w[k] = u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap());
        }
        Nibbles { count: self.n, packed: NibblesIntern(w) }
    }
    pub fn cat(&self, o: &[u8]) -> L {
        let mut l = *self;
        l.x[l.n..l.n + o.len()].copy_from_slice(o);
        l.n += o.len();
        l
    }
}
/// k is exactly the nibbles of the list.
pub fn is(k: &Nibbles, l: &[u8], id: u32) {
    check(k.count == l.len(), id);
    let e = L::of(l).nib();
    let mut d = 0;
    for i in 0..5 {
        d |= k.packed.0[i] ^ e.packed.0[i];
    }
    check(d == 0, id);
}
pub fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
    let mut v = vec![];
    v.extend_from_slice(nibbles::ALL);
    v.extend_from_slice(trie::ALL);
    v
}
