//! Properties of trace_decoder: the payloads of a block against a reference world, executed symbolically or replayed natively.
use ethereum_types::{Address, H256, U256};
use evm_arithmetization::generation::mpt::LegacyReceiptRlp;
use evm_arithmetization::generation::GenerationInputs as Gen;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, OnOrphanedHashNode, PartialTrie};
use plonky2::field::goldilocks_field::GoldilocksField;
use rt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use trace_decoder::*;

pub mod block;

pub type Gi = Gen<GoldilocksField>;

// ------------------------------------------------------------ yellow paper, appendices B, C and D
pub fn rlp_len(out: &mut Vec<u8>, n: usize, base: u8) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let be: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        out.push(base + 55 + be.len() as u8);
        out.extend(be);
    }
}
pub fn rlp_str(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    if s.len() == 1 && branch(s[0] < 0x80) {
        o.push(s[0]);
        return o;
    }
    rlp_len(&mut o, s.len(), 0x80);
    o.extend_from_slice(s);
    o
}
pub fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    rlp_len(&mut o, items.iter().map(|x| x.len()).sum(), 0xc0);
    for x in items {
        o.extend_from_slice(x);
    }
    o
}
pub fn rlp_num(x: U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    let mut i = 0;
    while i < 32 && branch(b[i] == 0) {
        i += 1;
    }
    rlp_str(&b[i..])
}
fn hp(x: &[u8], leaf: bool) -> Vec<u8> {
    let odd = x.len() % 2;
    let mut o = vec![0u8; 1 + x.len() / 2];
    o[0] = (leaf as u8 * 2 + odd as u8) * 16 + if odd == 1 { x[0] } else { 0 };
    for i in 0..x.len() / 2 {
        o[1 + i] = x[odd + 2 * i] * 16 + x[odd + 2 * i + 1];
    }
    o
}
type Ent = (Vec<u8>, Vec<u8>);
fn node(es: &[Ent]) -> Vec<u8> {
    if es.is_empty() {
        return vec![0x80];
    }
    if es.len() == 1 {
        return rlp_list(&[rlp_str(&hp(&es[0].0, true)), rlp_str(&es[0].1)]);
    }
    let mut p = 0;
    while es.iter().all(|e| p < e.0.len() && e.0[p] == es[0].0[p]) {
        p += 1;
    }
    if p > 0 {
        let rest: Vec<Ent> = es.iter().map(|e| (e.0[p..].to_vec(), e.1.clone())).collect();
        return rlp_list(&[rlp_str(&hp(&es[0].0[..p], false)), refer(&rest)]);
    }
    let mut items = vec![];
    for d in 0..16u8 {
        let sub: Vec<Ent> = es.iter().filter(|e| e.0[0] == d).map(|e| (e.0[1..].to_vec(), e.1.clone())).collect();
        items.push(refer(&sub));
    }
    items.push(vec![0x80]);
    rlp_list(&items)
}
fn refer(es: &[Ent]) -> Vec<u8> {
    let r = node(es);
    if es.is_empty() || r.len() < 32 { r } else { rlp_str(&keccak(&r)) }
}
pub fn keccak(x: &[u8]) -> [u8; 32] {
    hash::<32>(0, x)
}
pub fn nibs(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}
/// Root of the trie of these entries (distinct keys, none a prefix of another).
pub fn root(es: &[Ent]) -> [u8; 32] {
    keccak(&node(es))
}

pub fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
    block::ALL.to_vec()
}
