//! Partial tries against an association list, and against the yellow paper's definition of the root.
use crate::*;
use mpt_trie::builder::PartialTrieBuilder;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie, StandardTrie};
use mpt_trie::trie_ops::ValOrHash;
use mpt_trie::trie_subsets::{create_trie_subset, create_trie_subsets};
use ethereum_types::H256;
use rt::hashes_are_concrete;
use std::collections::HashMap;

type T = HashedPartialTrie;

/// n nibbles, each one of the letters.
fn word(n: usize, letters: &[u8]) -> L {
    let b: [u8; 8] = any();
    let mut l = L { n, x: [0; 80] };
    for i in 0..n {
        let mut ok = letters.len() == 16 && b[i] < 16;
        for x in letters.iter().take(15) {
            ok |= b[i] == *x;
        }
        assume(ok);
        l.x[i] = b[i];
    }
    l
}
const AB: &[u8] = &[3, 12];
const ABC: &[u8] = &[0, 7, 15];
const ALL16: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];

fn eq(a: &L, b: &L) -> bool {
    a.n == b.n && same(a.s(), b.s())
}
#[derive(Clone, Default)]
struct Model(Vec<(L, Vec<u8>)>);
impl Model {
    fn get(&self, k: &L) -> Option<&Vec<u8>> {
        self.0.iter().find(|(q, _)| branch(eq(q, k))).map(|x| &x.1)
    }
    fn del(&mut self, k: &L) -> Option<Vec<u8>> {
        let i = self.0.iter().position(|(q, _)| branch(eq(q, k)))?;
        Some(self.0.remove(i).1)
    }
    fn set(&mut self, k: L, v: Vec<u8>) {
        self.del(&k);
        self.0.push((k, v));
    }
}
fn same_opt(a: Option<&[u8]>, b: Option<&Vec<u8>>, id: u32) {
    match (a, b) {
        (None, None) => {}
        (Some(a), Some(b)) => check(same(a, b), id),
        _ => check(false, id),
    }
}
fn val() -> Vec<u8> {
    vec![any::<u8>() | 1]
}
/// The trie holds exactly the entries of the model, however it was reached.
fn agrees<P: PartialTrie>(t: &P, m: &Model, id: u32) {
    let mut n = 0;
    let mut last: Option<Nibbles> = None;
    for (k, v) in t.items() {
        n += 1;
        match v {
            ValOrHash::Hash(_) => check(false, id),
            ValOrHash::Val(v) => {
                let mut l = L { n: k.count, x: [0; 80] };
                for i in 0..k.count {
                    l.x[i] = k.get_nibble(i);
                }
                same_opt(Some(&v), m.get(&l), id);
            }
        }
        if let Some(p) = last {
            check(p.packed < k.packed || p.count != k.count, id);
        }
        last = Some(k);
    }
    check(n == m.0.len(), id);
    for (k, _) in &m.0 {
        check(t.contains(k.nib()), id);
    }
    let mut f = P::new(Node::Empty);
    for (k, v) in &m.0 {
        check(f.insert(k.nib(), v.clone()).is_ok(), id);
    }
    check(f == *t, id);
}
/// A history of insertions and deletions, then a query.
fn history<P: PartialTrie>(steps: usize, mut key: impl FnMut() -> L) {
    let mut t = P::new(Node::Empty);
    let mut m = Model::default();
    for i in 0..steps {
        let k = key();
        if i > 0 && pick(2) == 1 {
            let before = t.clone();
            match t.delete(k.nib()) {
                Err(_) => check(false, 1),
                Ok(v) => {
                    let w = m.del(&k);
                    if w.is_none() {
                        check(before == t, 2);
                    }
                    same_opt(v.as_deref(), w.as_ref(), 3);
                }
            }
        } else {
            let v = val();
            check(t.insert(k.nib(), v.clone()).is_ok(), 4);
            m.set(k, v);
        }
    }
    agrees(&t, &m, 5);
    let q = key();
    same_opt(t.get(q.nib()), m.get(&q), 6);
    check(t.contains(q.nib()) == m.get(&q).is_some(), 7);
}

// ------------------------------------------------------------ yellow paper, appendices B, C and D
fn rlp_len(out: &mut Vec<u8>, n: usize, base: u8) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let be: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        out.push(base + 55 + be.len() as u8);
        out.extend(be);
    }
}
fn rlp_str(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    if s.len() == 1 && branch(s[0] < 0x80) {
        o.push(s[0]);
        return o;
    }
    rlp_len(&mut o, s.len(), 0x80);
    o.extend_from_slice(s);
    o
}
fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    rlp_len(&mut o, items.iter().map(|x| x.len()).sum(), 0xc0);
    for x in items {
        o.extend_from_slice(x);
    }
    o
}
fn hp(x: &[u8], leaf: bool) -> Vec<u8> {
    let odd = x.len() % 2;
    let mut o = vec![0u8; 1 + x.len() / 2];
    o[0] = (leaf as u8 * 2 + odd as u8) * 16 + if odd == 1 { x[0] } else { 0 };
    for i in 0..x.len() / 2 {
        o[1 + i] = x[odd + 2 * i] * 16 + x[odd + 2 * i + 1];
    }
    o
}
type Ent = (Vec<u8>, Vec<u8>);
/// RLP of the node for the entries (keys without a common part already consumed), distinct keys none of which is a prefix of another.
fn node(es: &[Ent]) -> Vec<u8> {
    if es.is_empty() {
        return vec![0x80];
    }
    if es.len() == 1 {
        return rlp_list(&[rlp_str(&hp(&es[0].0, true)), rlp_str(&es[0].1)]);
    }
    let mut p = 0;
    while es.iter().all(|e| p < e.0.len() && branch(e.0[p] == es[0].0[p])) {
        p += 1;
    }
    if p > 0 {
        let rest: Vec<Ent> = es.iter().map(|e| (e.0[p..].to_vec(), e.1.clone())).collect();
        return rlp_list(&[rlp_str(&hp(&es[0].0[..p], false)), refer(&rest)]);
    }
    let mut items = vec![];
    for d in 0..16u8 {
        let sub: Vec<Ent> = es.iter().filter(|e| branch(e.0[0] == d)).map(|e| (e.0[1..].to_vec(), e.1.clone())).collect();
        items.push(refer(&sub));
    }
    items.push(vec![0x80]);
    rlp_list(&items)
}
fn refer(es: &[Ent]) -> Vec<u8> {
    let r = node(es);
    if es.is_empty() || r.len() < 32 { r } else { rlp_str(&hash::<32>(0, &r)) }
}
fn root(m: &Model) -> [u8; 32] {
    let es: Vec<Ent> = m.0.iter().map(|(k, v)| (k.s().to_vec(), v.clone())).collect();
    hash::<32>(0, &node(&es))
}
fn check_root<P: PartialTrie>(t: &P, m: &Model, id: u32) {
    check(same(&t.hash().0, &root(m)), id);
}

/// Values around every limit of RLP and of node inlining.
const SIZES: [usize; 9] = [1, 2, 27, 30, 31, 33, 55, 56, 260];
fn big(n: usize) -> Vec<u8> {
    let mut v = vec![0x5a; n];
    v[0] = any();
    v[n - 1] = any();
    v
}
fn build<P: PartialTrie>(n: usize, mut key: impl FnMut() -> L, mut value: impl FnMut() -> Vec<u8>) -> (P, Model) {
    let mut t = P::new(Node::Empty);
    let mut m = Model::default();
    for _ in 0..n {
        let (k, v) = (key(), value());
        check(t.insert(k.nib(), v.clone()).is_ok(), 10);
        m.set(k, v);
    }
    (t, m)
}

/// Keys of 64 nibbles: a common part, two free nibbles at one of several depths, a tail.
fn long(depth: usize, letters: &'static [u8]) -> impl FnMut() -> L {
    let common = L::any(64);
    move || {
        let w = word(2, letters);
        let mut l = common;
        l.x[depth] = w.x[0];
        l.x[depth + 1] = w.x[1];
        l
    }
}

/// The key of entry i of a transaction or receipt trie: the nibbles of RLP(i).
fn index_key() -> L {
    let i: u8 = any();
    let b: Vec<u8> = if branch(i == 0) { vec![0x80] } else if branch(i < 0x80) { vec![i] } else { vec![0x81, i] };
    let mut l = L { n: 2 * b.len(), x: [0; 80] };
    for (k, x) in b.iter().enumerate() {
        l.x[2 * k] = x >> 4;
        l.x[2 * k + 1] = x & 15;
    }
    l
}
/// Encodings of the nodes that a proof for k contains: the root and every node of 32 bytes or more on the way.
fn proof(es: &[Ent], k: &[u8], out: &mut Vec<Vec<u8>>, top: bool) {
    let r = node(es);
    if !es.is_empty() && (top || r.len() >= 32) {
        out.push(r);
    }
    if es.len() < 2 {
        return;
    }
    let mut p = 0;
    while es.iter().all(|e| p < e.0.len() && branch(e.0[p] == es[0].0[p])) {
        p += 1;
    }
    if p > 0 {
        let rest: Vec<Ent> = es.iter().map(|e| (e.0[p..].to_vec(), e.1.clone())).collect();
        if k.len() > p && branch(same(&k[..p], &es[0].0[..p])) {
            proof(&rest, &k[p..], out, false);
        }
        return;
    }
    let sub: Vec<Ent> = es.iter().filter(|e| branch(e.0[0] == k[0])).map(|e| (e.0[1..].to_vec(), e.1.clone())).collect();
    if !sub.is_empty() {
        proof(&sub, &k[1..], out, false);
    }
}
fn built(n: usize, mut key: impl FnMut() -> L, value: impl FnMut() -> Vec<u8>, short: bool) {
    hashes_are_concrete();
    let (t, m) = build::<T>(n, &mut key, value);
    let es: Vec<Ent> = m.0.iter().map(|(k, v)| (k.s().to_vec(), v.clone())).collect();
    let k = key();
    let mut nodes = vec![];
    proof(&es, k.s(), &mut nodes, true);
    let r = H256(root(&m));
    let mut b = PartialTrieBuilder::<T>::new(r, HashMap::new());
    b.insert_proof(nodes.clone());
    if short {
        b.insert_short_node_variants_from_proof(nodes);
    }
    let p = b.build();
    check(same(&p.hash().0, &r.0), 100);
    same_opt(p.get(k.nib()), m.get(&k), 101);
    let q = key();
    if let Some(v) = p.get(q.nib()) {
        same_opt(Some(v), m.get(&q), 102);
    }
    let mut all = vec![];
    for (k, _) in &m.0 {
        proof(&es, k.s(), &mut all, true);
    }
    let mut b = PartialTrieBuilder::<T>::new(r, HashMap::new());
    b.insert_proof(all);
    check(b.build() == t, 103);
}

fn two_keys(a: L, b: L) {
    // two unrelated keys of 64 nibbles
    let (v, w) = (val(), val());
    let mut t = T::default();
    check(t.insert(a.nib(), v.clone()).is_ok() && t.insert(b.nib(), w.clone()).is_ok(), 20);
    let mut m = Model::default();
    m.set(a, v);
    m.set(b, w);
    same_opt(t.get(a.nib()), m.get(&a), 21);
    same_opt(t.get(b.nib()), m.get(&b), 22);
    match t.delete(b.nib()) {
        Ok(x) => same_opt(x.as_deref(), m.del(&b).as_ref(), 23),
        Err(_) => check(false, 24),
    }
    check(t.get(b.nib()).is_none(), 25);
    same_opt(t.get(a.nib()), m.get(&a), 26);
}
fn cached(n: usize) {
    // hashes computed and cached along the way never go stale
    let (mut t, mut m) = build::<T>(2, || word(3, AB), || big(33));
    check_root(&t, &m, 50);
    for _ in 0..n {
    let k = word(3, AB);
    if pick(2) == 0 {
        let v = big(34);
        check(t.insert(k.nib(), v.clone()).is_ok(), 51);
        m.set(k, v);
    } else {
        check(t.delete(k.nib()).is_ok(), 52);
        m.del(&k);
    }
    check_root(&t, &m, 53);
    }
}
fn subset_root_with(n: usize) {
    let (t, m) = build::<T>(3, || word(n, AB), || big(if pick(2) == 0 { 2 } else { 33 }));
    let k = word(n, AB);
    match create_trie_subset(&t, [k.nib()]) {
        Ok(s) => {
            check_root(&s, &m, 60);
            same_opt(s.get(k.nib()), m.get(&k), 61);
            let q = word(n, AB);
            if let Some(v) = s.get(q.nib()) {
                same_opt(Some(v), m.get(&q), 62);
            }
        }
        Err(_) => check(false, 63),
    }
}
fn subset_two_with(l: &'static [u8]) {
    let (t, m) = build::<T>(3, || word(2, l), || big(33));
    let (a, b) = (word(2, l), word(2, l));
    match create_trie_subsets(&t, [vec![a.nib()], vec![b.nib()], vec![a.nib(), b.nib()]]) {
        Ok(ss) => {
            check(ss.len() == 3, 64);
            for (i, s) in ss.iter().enumerate() {
                check_root(s, &m, 65);
                if i != 1 { same_opt(s.get(a.nib()), m.get(&a), 66) }
                if i != 0 { same_opt(s.get(b.nib()), m.get(&b), 67) }
            }
        }
        Err(_) => check(false, 68),
    }
}

harnesses! {
    build_proof { built(3, || word(2, AB), || big(33), false) }
    build_proof_three { built(3, || word(3, AB), || big(33), false) }
    build_proof_small_three { built(3, || word(2, AB), || big(1 + pick(2)), false) }
    trie_history_five { history::<T>(5, || word(2, AB)) }
    trie_two_keys_near {
        const D: [usize; 3] = [0, 1, 63];
        let d = D[pick(3)];
        let a = L::any(64);
        let mut b = L::any(64);
        b.x[..d].copy_from_slice(&a.x[..d]);
        assume(a.x[d] != b.x[d]);
        two_keys(a, b);
    }
    root_four {
        let (t, m) = build::<T>(4, || word(3, AB), || big(33));
        check_root(&t, &m, 49);
    }
    root_cached_long { cached(2) }
    root_cached { cached(1) }
    subset_two_small { subset_two_with(AB) }
    subset_two { subset_two_with(ABC) }
    subset_root_two { subset_root_with(2) }
    subset_root { subset_root_with(3) }
    trie_two_keys { two_keys(L::any(64), L::any(64)) }
    build_proof_small { built(2, || word(2, ABC), || big(1 + pick(2)), false) }
    build_proof_short { built(2, || word(3, AB), || big(33), true) }
    build_proof_long {
        const D: [usize; 4] = [0, 1, 31, 62];
        built(2, long(D[pick(4)], AB), || big(33), true)
    }
    trie_history_index { history::<T>(2, index_key) }
    root_index {
        let (t, m) = build::<T>(1 + pick(2), index_key, || big(33));
        check_root(&t, &m, 48);
    }
    subset_sequence {
        // a subset does not depend on the ones made before it
        let (t, m) = build::<T>(3, || word(2, AB), || big(33));
        let a = word(2, AB);
        match create_trie_subsets(&t, [vec![a.nib()], vec![]]) {
            Ok(ss) => {
                check(ss.len() == 2, 75);
                check(matches!(&*ss[1], Node::Hash(h) if same(&h.0, &root(&m))), 76);
            }
            Err(_) => check(false, 77),
        }
    }
    trie_history { history::<T>(3, || word(3, AB)) }
    trie_history_wide { history::<T>(2, || word(1, ALL16)) }
    trie_history_abc { history::<T>(3, || word(2, ABC)) }
    trie_history_std { history::<StandardTrie>(3, || word(2, AB)) }
    trie_history_long {
        const D: [usize; 4] = [0, 1, 30, 62];
        history::<T>(3, long(D[pick(4)], AB))
    }
    trie_history_deep { history::<T>(4, || word(3, AB)) }
    trie_history_4 { history::<T>(3, || word(4, AB)) }
    trie_clone {
        // a copy does not see what happens to the original, nor the original what happens to the copy
        let (mut t, mut m) = build::<T>(2, || word(2, AB), || big(33));
        let before = (t.clone(), m.clone());
        let how = pick(5);
        if how & 1 == 1 {
            check_root(&t, &m, 30);
        }
        let k = word(2, AB);
        if how < 2 {
            let v = big(34);
            check(t.insert(k.nib(), v.clone()).is_ok(), 31);
            m.set(k, v);
        } else if how < 4 {
            check(t.delete(k.nib()).is_ok(), 32);
            m.del(&k);
        } else {
            let v = big(34);
            check(t.extend([(k.nib(), v.clone())]).is_ok(), 33);
            m.set(k, v);
        }
        let none: [Nibbles; 0] = [];
        match create_trie_subset(&t, none) {
            Ok(s) => check_root(&s, &m, 34),
            Err(_) => check(false, 35),
        }
        check_root(&t, &m, 36);
        check_root(&before.0, &before.1, 37);
        let q = word(2, AB);
        same_opt(before.0.get(q.nib()), before.1.get(&q), 38);
    }

    root_shapes {
        let (t, m) = build::<T>(1 + pick(3), || word(3, AB), || big(33));
        check_root(&t, &m, 40);
    }
    root_std {
        let (t, m) = build::<StandardTrie>(1 + pick(3), || word(2, AB), || vec![any::<u8>()]);
        check_root(&t, &m, 41);
    }
    root_small {
        let (t, m) = build::<T>(1 + pick(3), || word(2, ABC), || vec![any::<u8>()]);
        check_root(&t, &m, 42);
    }
    root_sizes {
        let s = SIZES[pick(9)];
        let mut first = true;
        let (t, m) = build::<T>(2, || word(2, AB), || { let n = if first { s } else { 2 }; first = false; big(n) });
        check_root(&t, &m, 43);
    }
    root_one {
        // one entry: key of any length, value of any small size
        let n = pick(65);
        let k = L::any(n);
        let s = [0, 1, 2, 20, 31, 32, 33, 55, 56, 255, 256][pick(11)];
        let v = if s == 0 { vec![] } else { big(s) };
        let mut t = T::default();
        check(t.insert(k.nib(), v.clone()).is_ok(), 44);
        let mut m = Model::default();
        m.set(k, v);
        check_root(&t, &m, 45);
        check_root(&T::default(), &Model::default(), 46);
    }
    root_long {
        const D: [usize; 5] = [0, 1, 2, 31, 62];
        let (t, m) = build::<T>(3, long(D[pick(5)], AB), || big(33));
        check_root(&t, &m, 47);
    }

    subset_hides {
        // what no key touches is hashed out
        let (t, m) = build::<T>(3, || word(2, AB), || big(33));
        let none: [Nibbles; 0] = [];
        match create_trie_subset(&t, none) {
            Ok(s) => check(matches!(&*s, Node::Hash(h) if same(&h.0, &root(&m))), 70),
            Err(_) => check(false, 71),
        }
        let k = word(2, AB);
        match create_trie_subset(&t, [k.nib()]) {
            Ok(s) => {
                for (p, v) in s.items() {
                    // a value is shown only if its leaf is where the path of k ends
                    if let ValOrHash::Val(v) = v {
                        let mut l = L { n: p.count, x: [0; 80] };
                        for i in 0..p.count { l.x[i] = p.get_nibble(i); }
                        same_opt(Some(&v), m.get(&l), 72);
                        let near = m.0.iter().filter(|(q, _)| branch(q.x[0] == k.x[0])).count();
                        check(branch(eq(&l, &k)) || m.0.len() == 1 || branch(l.x[0] == k.x[0]) && near == 1, 73);
                    }
                }
            }
            Err(_) => check(false, 74),
        }
    }
    subset_stateless {
        // on a subset, an update either fails or has exactly the effect it has on the whole trie
        let (mut t, mut m) = build::<T>(3, || word(2, AB), || big(33));
        let k = word(2, AB);
        let mut s = match create_trie_subset(&t, [k.nib()]) { Ok(s) => s, Err(_) => { check(false, 80); return } };
        let q = word(2, AB);
        if pick(2) == 0 {
            let v = big(34);
            let r = s.insert(q.nib(), v.clone());
            if branch(eq(&q, &k)) { check(r.is_ok(), 81) }
            if r.is_ok() {
                m.set(q, v.clone());
                check_root(&s, &m, 82);
                check(t.insert(q.nib(), v).is_ok(), 83);
                check_root(&t, &m, 84);
            }
        } else if let Ok(x) = s.delete(q.nib()) {
            same_opt(x.as_deref(), m.del(&q).as_ref(), 85);
            check_root(&s, &m, 86);
        }
    }
    subset_hash_key {
        // a key whose path is hashed out cannot be asked for
        let (t, m) = build::<T>(2, || word(2, AB), || big(33));
        let k = word(2, AB);
        let s = match create_trie_subset(&t, [k.nib()]) { Ok(s) => s, Err(_) => { check(false, 90); return } };
        let q = word(2, AB);
        match create_trie_subset(&s, [q.nib()]) {
            Ok(z) => {
                if let Some(v) = z.get(q.nib()) { same_opt(Some(v), m.get(&q), 91) } else { check(!branch(eq(&q, &k)) || m.get(&q).is_none(), 94) }
                check_root(&z, &m, 92);
            }
            Err(_) => check(!branch(eq(&q, &k)) && m.0.len() > 1, 93),
        }
    }
}
