//! Properties of smt_trie, executed symbolically (cfg(symx)) or replayed natively.
use alloy::primitives::{Address, B256, U256};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::Poseidon;
use rt::*;
use smt_trie::bits::Bits;
use smt_trie::code::{hash_bytecode_h256, hash_contract_bytecode};
use smt_trie::db::{Db, MemoryDb};
use smt_trie::keys::*;
use smt_trie::smt::{hash_serialize, hash_serialize_u256, HashOut, Key, Smt, F};
use smt_trie::utils::{hashout2h, hashout2u, key2u};

const P: u64 = 0xffff_ffff_0000_0001;

fn felt(x: u64) -> F {
    F::from_canonical_u64(x)
}
fn pos(x: [u64; 12]) -> [u64; 12] {
    F::poseidon(x.map(felt)).map(|y| y.to_canonical_u64())
}
fn first(x: [u64; 12]) -> [u64; 4] {
    [x[0], x[1], x[2], x[3]]
}
fn key(k: [u64; 4]) -> Key {
    Key(k.map(felt))
}
fn raw(h: HashOut) -> [u64; 4] {
    h.elements.map(|x| x.to_canonical_u64())
}
fn eq4(a: [u64; 4], b: [u64; 4]) -> bool {
    (a[0] ^ b[0]) | (a[1] ^ b[1]) | (a[2] ^ b[2]) | (a[3] ^ b[3]) == 0
}

// ------------------------------------------------------------ definition of the sparse Merkle tree (Polygon Hermez)
type Ent = ([u64; 4], [u64; 4]);
/// Bit of a key at a level.
fn bit(k: [u64; 4], level: usize) -> bool {
    k[level % 4] >> (level / 4) & 1 == 1
}
/// The key without its first `depth` bits.
fn rest(k: [u64; 4], depth: usize) -> [u64; 4] {
    let mut r = k;
    for i in 0..4 {
        let n = (depth + 3 - i) / 4;
        r[i] = if n >= 64 { 0 } else { k[i] >> n };
    }
    r
}
fn leaf(k: [u64; 4], v: [u64; 4]) -> [u64; 4] {
    let mut x = [0; 12];
    for i in 0..4 {
        x[2 * i] = v[i] & 0xffff_ffff;
        x[2 * i + 1] = v[i] >> 32;
    }
    let h = first(pos(x));
    first(pos([k[0], k[1], k[2], k[3], h[0], h[1], h[2], h[3], 1, 0, 0, 0]))
}
fn subtree(es: &[Ent], depth: usize) -> [u64; 4] {
    if es.is_empty() {
        return [0; 4];
    }
    if es.len() == 1 {
        return leaf(rest(es[0].0, depth), es[0].1);
    }
    let side = |b: bool| -> Vec<Ent> { es.iter().filter(|e| bit(e.0, depth) == b).copied().collect() };
    let l = subtree(&side(false), depth + 1);
    let r = subtree(&side(true), depth + 1);
    first(pos([l[0], l[1], l[2], l[3], r[0], r[1], r[2], r[3], 0, 0, 0, 0]))
}

#[derive(Default, Clone)]
struct Model(Vec<Ent>);
impl Model {
    fn set(&mut self, k: [u64; 4], v: [u64; 4]) {
        self.0.retain(|e| e.0 != k);
        if !branch(eq4(v, [0; 4])) {
            self.0.push((k, v));
        }
    }
    fn get(&self, k: [u64; 4]) -> [u64; 4] {
        self.0.iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or([0; 4])
    }
}
type S = Smt<MemoryDb>;
fn val() -> [u64; 4] {
    let x: [u8; 2] = any();
    [x[0] as u64, 0, 0, (x[1] as u64) << 56]
}
fn some() -> [u64; 4] {
    let v = val();
    assume(!eq4(v, [0; 4]));
    v
}
fn set(t: &mut S, m: &mut Model, k: [u64; 4], v: [u64; 4]) {
    t.set(key(k), U256::from_limbs(v));
    m.set(k, v);
}
fn get(t: &S, m: &Model, k: [u64; 4], id: u32) {
    check(eq4(t.get(key(k)).into_limbs(), m.get(k)), id);
}
fn root(t: &S, m: &Model, id: u32) {
    check(eq4(raw(t.root), subtree(&m.0, 0)), id);
}

// ------------------------------------------------------------ families of keys
const BASE: [u64; 4] = [0x2c59_31ab_00f0_1e73, 0x6b05_7781_9ac4_4d0e, 0x1f93_cc02_7e5a_b318, 0x40d6_8be9_2471_65cb];
/// BASE with the bits from `level` on replaced: the bit at `level` flipped, further bits mixed with `salt`.
fn fork(base: [u64; 4], level: usize, salt: u64) -> [u64; 4] {
    let mut k = base;
    k[level % 4] ^= 1 << (level / 4);
    let mut s = salt;
    for l in level + 1..256 {
        s = s.wrapping_mul(0x5851f42d4c957f2d).wrapping_add(0x14057b7ef767814f);
        if salt != 0 && s >> 63 == 1 && l < 252 {
            k[l % 4] ^= 1 << (l / 4);
        }
    }
    k
}
/// Every combination of the first three bits.
fn near(i: usize) -> [u64; 4] {
    let mut k = BASE;
    for l in 0..3 {
        k[l] = k[l] & !1 | (i >> l & 1) as u64;
    }
    k
}
/// Keys that share a long part and then differ in close levels, around a limb's end or the last level.
fn far(at: usize) -> impl Fn(usize) -> [u64; 4] {
    move |i| {
        let mut k = BASE;
        for l in 0..3 {
            let p = at + l;
            if i >> l & 1 == 1 {
                k[p % 4] ^= 1 << (p / 4);
            }
        }
        k
    }
}
const SPLITS: [usize; 5] = [0, 1, 4, 7, 13];
/// BASE and keys that leave it at different depths.
fn comb(i: usize) -> [u64; 4] {
    if i == 0 { BASE } else { fork(BASE, SPLITS[i - 1], i as u64 * 77) }
}

fn history(steps: usize, n: usize, k: impl Fn(usize) -> [u64; 4]) {
    let (mut t, mut m) = (S::default(), Model::default());
    for _ in 0..steps {
        let i = pick(n);
        set(&mut t, &mut m, k(i), val());
    }
    root(&t, &m, 1);
    for i in 0..n {
        get(&t, &m, k(i), 2);
    }
    check(t.kv_store.len() == m.0.len(), 3);
}
/// n entries, each present.
fn full(n: usize, k: impl Fn(usize) -> [u64; 4]) -> (S, Model) {
    let (mut t, mut m) = (S::default(), Model::default());
    for i in 0..n {
        set(&mut t, &mut m, k(i), some());
    }
    (t, m)
}
/// All of n keys present, then some removed in some order, then one more value.
fn removals(n: usize, gone: usize, k: impl Fn(usize) -> [u64; 4]) {
    let (mut t, mut m) = full(n, &k);
    root(&t, &m, 4);
    for _ in 0..gone {
        let i = pick(n);
        if i % 2 == 0 {
            t.delete(key(k(i)));
            m.set(k(i), [0; 4]);
        } else {
            set(&mut t, &mut m, k(i), [0; 4]);
        }
        root(&t, &m, 5);
    }
    for i in 0..n {
        get(&t, &m, k(i), 6);
    }
}
fn two(step: usize, off: usize) {
    let b: u8 = any();
    let d = concrete(b as u64) as usize;
    if d % step != off {
        assume(false);
    }
    let (x, y) = (BASE, fork(BASE, d, d as u64 % 3));
    let (mut t, mut m) = (S::default(), Model::default());
    set(&mut t, &mut m, x, some());
    root(&t, &m, 10);
    get(&t, &m, y, 11);
    set(&mut t, &mut m, y, some());
    root(&t, &m, 12);
    get(&t, &m, x, 13);
    get(&t, &m, y, 13);
    set(&mut t, &mut m, x, some());
    root(&t, &m, 14);
    set(&mut t, &mut m, if pick(2) == 0 { x } else { y }, [0; 4]);
    root(&t, &m, 15);
    get(&t, &m, x, 16);
    get(&t, &m, y, 16);
}

// ------------------------------------------------------------ serialization
#[derive(PartialEq)]
enum Found {
    Hash,
    Nothing,
    Leaf([u64; 4], [u64; 4], usize),
}
fn small(x: U256) -> usize {
    let l = x.into_limbs();
    check(l[1] | l[2] | l[3] == 0, 90);
    concrete(l[0]) as usize
}
/// Follows a key through the serialized form.
fn walk(v: &[U256], k: [u64; 4]) -> Found {
    let mut p = 2;
    let mut depth = 0;
    loop {
        match small(v[p]) {
            0 => return if p == 0 || v[p + 1].is_zero() { Found::Nothing } else { Found::Hash },
            1 => {
                p = small(v[p + 1 + bit(k, depth) as usize]);
                depth += 1;
            }
            2 => return Found::Leaf(v[p + 1].into_limbs(), v[p + 2].into_limbs(), depth),
            _ => {
                check(false, 91);
                return Found::Nothing;
            }
        }
    }
}
fn agree(v: &[U256], m: &Model, k: [u64; 4], may_hash: bool, id: u32) {
    match walk(v, k) {
        Found::Hash => check(may_hash, id),
        Found::Nothing => check(eq4(m.get(k), [0; 4]), id),
        Found::Leaf(r, w, d) => {
            if eq4(r, rest(k, d)) {
                check(eq4(w, m.get(k)), id);
            } else {
                check(eq4(m.get(k), [0; 4]), id);
            }
        }
    }
}
fn serial(n: usize, keep: usize, k: impl Fn(usize) -> [u64; 4]) {
    let (t, m) = full(n, &k);
    let all = t.serialize();
    check(all[0].is_zero() && all[1].is_zero(), 20);
    check(eq4(raw(hash_serialize(&all)), raw(t.root)), 21);
    check(eq4(hash_serialize_u256(&all).into_limbs(), raw(t.root)), 21);
    for i in 0..n + 2 {
        agree(&all, &m, k(i), false, 22);
    }
    let ks: Vec<[u64; 4]> = (0..keep).map(|_| k(pick(n + 2))).collect();
    let some = t.serialize_and_prune(ks.iter().map(|x| key(*x)).collect::<Vec<_>>());
    check(eq4(raw(hash_serialize(&some)), raw(t.root)), 23);
    for x in &ks {
        agree(&some, &m, *x, false, 24);
    }
    for i in 0..n + 2 {
        agree(&some, &m, k(i), true, 25);
    }
    // what no key of the list leads to is hashed out: no leaf of the form belongs to a key that leaves all of them above it
    for e in &m.0 {
        if let Found::Leaf(r, _, d) = walk(&some, e.0) {
            check(eq4(r, rest(e.0, d)), 26);
            check(ks.iter().any(|x| (0..d).all(|l| bit(*x, l) == bit(e.0, l))), 27);
        }
    }
}

fn bits(n: usize, x: U256) -> Bits {
    let mut b = Bits::empty();
    for i in 0..n {
        b.push_bit((x >> (n - 1 - i)) & U256::from(1) == U256::from(1));
    }
    b
}

// ------------------------------------------------------------ hash nodes
/// The tree with one of its subtrees known by its hash only.
fn hashed(n: usize, max: usize, k: impl Fn(usize) -> [u64; 4]) {
    let es: Vec<Ent> = (0..n).map(|i| (k(i), some())).collect();
    let i = pick(n);
    let d = pick(max + 1);
    let under = |e: &Ent, d: usize| (0..d).all(|l| bit(e.0, l) == bit(es[i].0, l));
    // a node of the tree: its parent holds more than one entry
    if d > 0 && es.iter().filter(|e| under(e, d - 1)).count() < 2 {
        assume(false);
    }
    let inside: Vec<Ent> = es.iter().filter(|e| under(e, d)).copied().collect();
    let h = subtree(&inside, d);
    let mut t = S::default();
    let mut p = Bits::empty();
    for l in 0..d {
        p.push_bit(bit(es[i].0, l));
    }
    t.set_hash(p, HashOut { elements: h.map(felt) });
    for e in es.iter().filter(|e| !under(e, d)) {
        t.set(key(e.0), U256::from_limbs(e.1));
    }
    check(eq4(raw(t.root), subtree(&es, 0)), 30);
    for e in es.iter().filter(|e| !under(e, d)) {
        check(eq4(t.get(key(e.0)).into_limbs(), e.1), 31);
    }
    let v = t.serialize();
    check(eq4(raw(hash_serialize(&v)), raw(t.root)), 32);
    for e in &es {
        agree(&v, &Model(es.clone()), e.0, under(e, d), 33);
    }
}

fn addr_limbs(a: [u8; 20]) -> [u64; 5] {
    let mut x = [0; 5];
    for i in 0..5 {
        for j in 0..4 {
            x[i] |= (a[19 - 4 * i - j] as u64) << (8 * j);
        }
    }
    x
}
const ZEROS: [u64; 4] = [4330397376401421145, 14124799381142128323, 8742572140681234676, 14345658006221440202];
fn account_key(a: [u8; 20], kind: u64, cap: [u64; 4]) -> [u64; 4] {
    let l = addr_limbs(a);
    first(pos([l[0], l[1], l[2], l[3], l[4], 0, kind, 0, cap[0], cap[1], cap[2], cap[3]]))
}
fn raw_key(k: Key) -> [u64; 4] {
    k.0.map(|x| x.to_canonical_u64())
}
fn code(n: usize) {
    let b = bytes(n);
    let got = hash_contract_bytecode(b.clone());
    let blocks = n / 56 + 1;
    let mut pad = b.clone();
    pad.resize(blocks * 56, 0);
    pad[n] |= 1;
    pad[blocks * 56 - 1] |= 0x80;
    let mut cap = [0u64; 4];
    for q in 0..blocks {
        let mut x = [0u64; 12];
        for i in 0..8 {
            for j in 0..7 {
                x[i] |= (pad[q * 56 + i * 7 + j] as u64) << (8 * j);
            }
        }
        x[8..].copy_from_slice(&cap);
        cap = first(pos(x));
    }
    check(eq4(raw(got), cap), 50);
    let mut be = [0u8; 32];
    for i in 0..32 {
        be[31 - i] = (cap[i / 8] >> (8 * (i % 8))) as u8;
    }
    check(same(&hash_bytecode_h256(&b).0, &be), 51);
}
fn canonical() -> [u64; 4] {
    let k: [u64; 4] = any();
    for x in k {
        assume(x < P);
    }
    k
}

harnesses! {
    smt_two_a { hashes_are_concrete(); two(4, 0); }
    smt_two_b { hashes_are_concrete(); two(4, 1); }
    smt_two_c { hashes_are_concrete(); two(4, 2); }
    smt_two_d { hashes_are_concrete(); two(4, 3); }
    smt_two_sample { hashes_are_concrete(); two(17, 0); }
    smt_history_near { hashes_are_concrete(); history(3, 4, near); }
    smt_history_all8 { hashes_are_concrete(); history(2, 8, near); }
    smt_history_comb { hashes_are_concrete(); history(3, 5, comb); }
    smt_history_four { hashes_are_concrete(); history(4, 4, near); }
    smt_history_comb4 { hashes_are_concrete(); history(4, 6, comb); }
    smt_history_far { hashes_are_concrete(); history(2, 8, far(30)); }
    smt_removals_near { hashes_are_concrete(); removals(5, 2, near); }
    smt_removals_comb { hashes_are_concrete(); removals(5, 2, comb); }
    smt_removals_far { hashes_are_concrete(); removals(3, 2, far(21)); }
    smt_removals_end { hashes_are_concrete(); removals(3, 2, far(253)); }
    smt_removals_deep { hashes_are_concrete(); removals(6, 3, comb); }
    smt_one {
        hashes_are_concrete();
        let (mut t, mut m) = (S::default(), Model::default());
        let (v, w): ([u64; 4], [u64; 4]) = (any(), any());
        set(&mut t, &mut m, BASE, v);
        root(&t, &m, 45);
        get(&t, &m, BASE, 46);
        set(&mut t, &mut m, BASE, w);
        root(&t, &m, 47);
        get(&t, &m, BASE, 48);
    }
    smt_empty {
        let t = S::default();
        let k = BASE;
        check(t.get(key(k)).is_zero(), 40);
        check(eq4(raw(t.root), [0; 4]), 41);
        let v = t.serialize();
        check(v.len() == 4 && v.iter().all(|x| x.is_zero()), 42);
        check(eq4(raw(hash_serialize(&v)), [0; 4]), 43);
        let mut t = t;
        t.delete(key(k));
        t.set(key(k), U256::ZERO);
        check(eq4(raw(t.root), [0; 4]), 44);
    }
    smt_serial_one { hashes_are_concrete(); serial(1, 1, near); }
    smt_serial_near { hashes_are_concrete(); serial(3, 2, near); }
    smt_serial_comb { hashes_are_concrete(); serial(4, 2, comb); }
    smt_serial_far { hashes_are_concrete(); serial(2, 1, far(9)); }
    smt_serial_four { hashes_are_concrete(); serial(5, 3, near); }
    smt_hash_near { hashes_are_concrete(); hashed(4, 3, near); }
    smt_hash_comb { hashes_are_concrete(); hashed(4, 6, comb); }
    smt_hash_far { hashes_are_concrete(); hashed(3, 12, far(9)); }

    key_accounts {
        let a: [u8; 20] = any();
        let ad = Address::from(a);
        check(eq4(raw_key(key_balance(ad)), account_key(a, 0, ZEROS)), 60);
        check(eq4(raw_key(key_nonce(ad)), account_key(a, 1, ZEROS)), 61);
        check(eq4(raw_key(key_code(ad)), account_key(a, 2, ZEROS)), 62);
        check(eq4(raw_key(key_code_length(ad)), account_key(a, 4, ZEROS)), 63);
    }
    key_slots {
        let a: [u8; 20] = any();
        let s: [u64; 4] = any();
        let mut x = [0; 12];
        for i in 0..4 {
            x[2 * i] = s[i] & 0xffff_ffff;
            x[2 * i + 1] = s[i] >> 32;
        }
        let cap = first(pos(x));
        check(eq4(raw_key(key_storage(Address::from(a), U256::from_limbs(s))), account_key(a, 3, cap)), 64);
    }
    key_words {
        let k = canonical();
        check(eq4(key2u(key(k)).into_limbs(), k), 65);
        let h = HashOut { elements: k.map(felt) };
        check(eq4(hashout2u(h).into_limbs(), k), 66);
        let mut be = [0u8; 32];
        for i in 0..32 {
            be[31 - i] = (k[i / 8] >> (8 * (i % 8))) as u8;
        }
        check(same(&hashout2h(h).0, &be), 67);
    }
    key_split {
        let k = canonical();
        let b = key(k).split();
        check(b.count == 256, 70);
        for l in 0..256 {
            check(b.get_bit(l) == bit(k, l), 71);
        }
    }
    key_join {
        let k = canonical();
        let d = pick(8);
        let mut p = Bits::empty();
        for l in 0..d {
            p.push_bit(branch(bit(k, l)));
        }
        check(eq4(raw_key(Key::join(p, key(rest(k, d)))), k), 72);
    }
    key_join_deep {
        let d = 8 + pick(249);
        let r: [u64; 4] = any();
        let mut p = Bits::empty();
        let mut k = [0; 4];
        for l in 0..256 {
            let b = l >= d && r[l % 4] >> (l / 4) & 1 == 1 || l < d && bit(BASE, l);
            k[l % 4] |= (b as u64) << (l / 4);
        }
        for l in 0..d {
            p.push_bit(bit(BASE, l));
        }
        for x in k {
            assume(x < P);
        }
        check(eq4(raw_key(Key::join(p, key(rest(k, d)))), k), 73);
    }
    bits_stack {
        let n = [0usize, 1, 2, 63, 64, 65, 127, 128, 200, 254, 255][pick(11)];
        let x: [u64; 4] = any();
        let x = U256::from_limbs(x);
        let mut b = bits(n, x);
        check(b.count == n && b.is_empty() == (n == 0), 80);
        let mask = (U256::from(1) << n) - U256::from(1);
        check(b.packed == x & mask, 81);
        for i in 0..n {
            check(b.get_bit(i) == x.bit(n - 1 - i), 82);
        }
        let e: bool = any::<u8>() & 1 == 1;
        let c = b.add_bit(e);
        check(c.count == n + 1 && c.get_bit(n) == e, 83);
        let mut c2 = c;
        check(c2.pop_next_bit() == e, 84);
        check(c2 == b, 85);
        b.push_bit(e);
        check(b == c, 86);
    }
    bits_add {
        let n = [0usize, 1, 3, 64, 100, 192][pick(6)];
        let m = [0usize, 1, 5, 63, 64][pick(5)];
        let (x, y): ([u64; 4], [u64; 4]) = (any(), any());
        let (x, y) = (U256::from_limbs(x), U256::from_limbs(y));
        let (a, b) = (bits(n, x), bits(m, y));
        let c = a + b;
        check(c.count == n + m, 87);
        for i in 0..n + m {
            check(c.get_bit(i) == if i < n { x.bit(n - 1 - i) } else { y.bit(m - 1 - (i - n)) }, 88);
        }
    }
    bits_common {
        let n = [0usize, 1, 2, 7, 65][pick(5)];
        let m = [0usize, 1, 3, 7, 66][pick(5)];
        let (x, y): ([u64; 4], [u64; 4]) = (any(), any());
        let (x, y) = (U256::from_limbs(x), U256::from_limbs(y));
        let (a, b) = (bits(n, x), bits(m, y));
        let (p, d) = a.common_prefix(&b);
        check(p.count <= n && p.count <= m, 92);
        let l = p.count;
        for i in 0..l {
            check(a.get_bit(i) == p.get_bit(i) && b.get_bit(i) == p.get_bit(i), 93);
        }
        match d {
            None => check(l == n.min(m), 94),
            Some((s, t)) => {
                check(l < n && l < m, 95);
                check(s != t && s == a.get_bit(l) && t == b.get_bit(l), 96);
            }
        }
    }
    bits_from {
        let x: [u8; 32] = any();
        let b = Bits::from(B256::from(x));
        check(b.count == 256, 97);
        for i in 0..256 {
            check(b.get_bit(i) == (x[i / 8] >> (7 - i % 8) & 1 == 1), 98);
        }
    }
    code_0 { code(0); }
    code_1 { code(1); }
    code_short { code(2 + pick(8)); }
    code_54 { code(54); }
    code_55 { code(55); }
    code_56 { code(56); }
    code_57 { code(57); }
    code_110 { code(110 + pick(4)); }
    code_167 { code(166 + pick(4)); }
    db_nodes {
        let (x, y, z) = (canonical(), canonical(), canonical());
        let mut t = S::default();
        let c = |a: [u64; 4], b: [u64; 4]| [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]].map(felt);
        hashes_are_concrete();
        let h = t.hash0(c(x, y)).map(|q| q.to_canonical_u64());
        check(eq4(h, first(pos([x[0], x[1], x[2], x[3], y[0], y[1], y[2], y[3], 0, 0, 0, 0]))), 100);
        let g = t.hash_key_hash(key(x), z.map(felt)).map(|q| q.to_canonical_u64());
        check(eq4(g, first(pos([x[0], x[1], x[2], x[3], z[0], z[1], z[2], z[3], 1, 0, 0, 0]))), 101);
        let n = t.db.get_node(&key(h)).unwrap();
        check(eq4(raw_key(Key([n.0[4], n.0[5], n.0[6], n.0[7]])), y) && !n.is_one_siblings(), 102);
        let n = t.db.get_node(&key(g)).unwrap();
        check(eq4(raw_key(Key([n.0[4], n.0[5], n.0[6], n.0[7]])), z) && n.is_one_siblings(), 103);
    }
}
pub fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
    ALL.to_vec()
}
