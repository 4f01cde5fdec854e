//! A block's payloads: chained, exact, and sufficient for a prover that sees nothing else.
use crate::*;

const BEACON: Address = ethereum_types::H160([0x00, 0x0F, 0x3d, 0xf6, 0xD7, 0x32, 0x80, 0x7E, 0xf1, 0x31, 0x9f, 0xB7, 0xB8, 0xbB, 0x85, 0x22, 0xd0, 0xBe, 0xac, 0x02]);

#[derive(Clone)]
pub struct Acct {
    pub nonce: U256,
    pub bal: U256,
    pub code: [u8; 32],
    pub slots: BTreeMap<U256, U256>,
    /// which creation of the account this is
    pub life: usize,
}
#[derive(Clone, Default)]
pub struct World(pub BTreeMap<Address, Acct>, usize);

pub fn addr(x: u8) -> Address {
    let mut a = Address::zero();
    a.0[19] = x;
    a
}
pub fn slot_key(s: U256) -> [u8; 32] {
    let mut b = [0u8; 32];
    s.to_big_endian(&mut b);
    keccak(&b)
}
fn h(s: U256) -> H256 {
    let mut b = [0u8; 32];
    s.to_big_endian(&mut b);
    H256(b)
}
impl Acct {
    pub fn new(code: &[u8]) -> Acct {
        Acct { nonce: U256::zero(), bal: U256::zero(), code: keccak(code), slots: BTreeMap::new(), life: 0 }
    }
    fn entries(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.slots.iter().map(|(k, v)| (nibs(&slot_key(*k)), rlp_num(*v))).collect()
    }
    fn root(&self) -> [u8; 32] {
        root(&self.entries())
    }
    fn rlp(&self) -> Vec<u8> {
        rlp_list(&[rlp_num(self.nonce), rlp_num(self.bal), rlp_str(&self.root()), rlp_str(&self.code)])
    }
    fn trie(&self) -> HashedPartialTrie {
        build(&self.entries())
    }
}
impl World {
    fn entries(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.0.iter().map(|(a, x)| (nibs(&keccak(&a.0)), x.rlp())).collect()
    }
    fn root(&self) -> [u8; 32] {
        root(&self.entries())
    }
    fn store(&mut self, a: Address, s: U256, v: U256) {
        if let Some(x) = self.0.get_mut(&a) {
            if branch(v.is_zero()) {
                x.slots.remove(&s);
            } else {
                x.slots.insert(s, v);
            }
        }
    }
    fn fetch(&mut self, a: &Address) -> Acct {
        self.1 += 1;
        self.0.get(a).cloned().unwrap_or(Acct { life: self.1, ..Acct::new(b"") })
    }
    /// EIP-4788
    fn beacon(&mut self, time: U256, root: H256) {
        let i = time % U256::from(8191);
        self.store(BEACON, i, time);
        self.store(BEACON, i + U256::from(8191), U256::from_big_endian(&root.0));
    }
    fn apply(&mut self, t: &BTreeMap<Address, TxnTrace>, status: bool) {
        for (a, t) in t {
            let born = !self.0.contains_key(a);
            if *t != TxnTrace::default() && (!born || status) {
                let mut x = self.fetch(a);
                x.nonce = t.nonce.unwrap_or(x.nonce);
                x.bal = t.balance.unwrap_or(x.bal);
                match &t.code_usage {
                    Some(ContractCodeUsage::Read(h)) => x.code = h.0,
                    Some(ContractCodeUsage::Write(b)) => x.code = keccak(b),
                    None => {}
                }
                if !born || t.nonce.is_some() || t.balance.is_some() || t.code_usage.is_some() {
                    self.0.insert(*a, x);
                }
                for (s, v) in &t.storage_written {
                    self.store(*a, U256::from_big_endian(&s.0), *v);
                }
            }
            if t.self_destructed {
                self.0.remove(a);
            }
        }
    }
}
fn nibbles(k: &[u8]) -> mpt_trie::nibbles::Nibbles {
    let mut n = mpt_trie::nibbles::Nibbles::default();
    for x in k {
        n.push_nibble_back(*x);
    }
    n
}
fn build(es: &[(Vec<u8>, Vec<u8>)]) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::new(Node::Empty);
    for (k, v) in es {
        t.insert(nibbles(k), v.clone()).unwrap();
    }
    t
}
/// The kernel's final update: what is gone is deleted, then everything that is there is written.
fn update(t: &HashedPartialTrie, before: &[(Vec<u8>, Vec<u8>)], after: &[(Vec<u8>, Vec<u8>)], replaced: &[Vec<u8>]) -> HashedPartialTrie {
    let mut t = copy(t);
    for (k, _) in before {
        if replaced.contains(k) || after.iter().all(|x| x.0 != *k) {
            check(t.delete(nibbles(k)).is_ok(), 50);
        }
    }
    for (k, v) in after {
        if !before.iter().any(|x| x.0 == *k && same(&x.1, v)) {
            check(t.insert(nibbles(k), v.clone()).is_ok(), 51);
        }
    }
    t
}
/// The same nodes, with orphaned hash nodes collapsed to extensions, as the kernel does it.
fn copy(t: &HashedPartialTrie) -> HashedPartialTrie {
    HashedPartialTrie::new_with_strategy((**t).clone(), OnOrphanedHashNode::CollapseToExtension)
}

pub struct Block {
    pub pre: World,
    pub txs: Vec<TxnInfo>,
    pub status: Vec<bool>,
    pub hint: usize,
    pub time: U256,
    pub beacon_root: H256,
    pub withdrawals: Vec<(Address, U256)>,
    pub codes: Vec<Vec<u8>>,
}
struct Sink(usize);
impl trace_decoder::observer::Observer<evm_arithmetization::world::Type1World> for Sink {
    fn collect_tries(&mut self, _: U256, b: usize, _: &evm_arithmetization::world::Type1World, _: &evm_arithmetization::tries::TransactionTrie, _: &evm_arithmetization::tries::ReceiptTrie) {
        check(b == self.0, 1);
        self.0 += 1;
    }
}
fn other(b: &Block) -> OtherBlockData {
    let mut m = evm_arithmetization::proof::BlockMetadata::default();
    m.block_timestamp = b.time;
    m.block_number = U256::from(7);
    m.parent_beacon_block_root = b.beacon_root;
    OtherBlockData {
        b_data: BlockLevelData { b_meta: m, b_hashes: Default::default(), withdrawals: b.withdrawals.clone() },
        checkpoint_state_trie_root: H256([3; 32]),
        checkpoint_consolidated_hash: Default::default(),
        burn_addr: None,
        ger_data: None,
    }
}
fn index(i: usize) -> Vec<u8> {
    nibs(&rlp_num(U256::from(i)))
}
fn trie_of(x: &[Vec<u8>]) -> [u8; 32] {
    root(&x.iter().enumerate().map(|(i, v)| (index(i), v.clone())).collect::<Vec<_>>())
}

impl Block {
    pub fn run(&self) -> Vec<Gi> {
        let state = build(&self.pre.entries());
        let storage: HashMap<H256, SeparateTriePreImage> = self.pre.0.iter().map(|(a, x)| (H256(keccak(&a.0)), SeparateTriePreImage::Direct(x.trie()))).collect();
        let trace = BlockTrace {
            trie_pre_images: BlockTraceTriePreImages::Separate(SeparateTriePreImages { state: SeparateTriePreImage::Direct(state), storage: SeparateStorageTriesPreImage::MultipleTries(storage) }),
            code_db: self.codes.iter().cloned().collect(),
            txn_info: self.txs.clone(),
        };
        let mut s = Sink(0);
        let r = entrypoint(trace, other(self), self.hint, &mut s, WireDisposition::Type1);
        match r {
            Ok(r) => {
                check(s.0 == r.len(), 2);
                r
            }
            Err(_) => {
                check(false, 3);
                vec![]
            }
        }
    }
    /// Every payload, against the reference world.
    pub fn judge(&self, out: &[Gi]) {
        let mut w = self.pre.clone();
        let (mut i, mut gas) = (0, 0u64);
        let codes: Vec<Vec<u8>> = self.txs.iter().map(|t| t.meta.byte_code.clone()).collect();
        let receipts: Vec<Vec<u8>> = self.txs.iter().map(|t| t.meta.new_receipt_trie_node_byte.clone()).collect();
        check(out.len() >= 2, 10);
        for (bi, g) in out.iter().enumerate() {
            let last = bi + 1 == out.len();
            let n = g.signed_txns.len();
            check(n <= self.hint.max(1), 11);
            check(i + n <= self.txs.len(), 12);
            check(g.txn_number_before == U256::from(i), 13);
            check(g.gas_used_before == U256::from(gas), 14);
            for k in 0..n {
                check(same(&g.signed_txns[k], &codes[i + k]), 15);
            }
            // before
            check(same(&g.tries.state_trie.hash().0, &w.root()), 20);
            check(same(&g.tries.transactions_trie.hash().0, &trie_of(&codes[..i])), 21);
            check(same(&g.tries.receipts_trie.hash().0, &trie_of(&receipts[..i])), 22);
            for (k, t) in &g.tries.storage_tries {
                let x = w.0.iter().find(|(a, _)| keccak(&a.0) == k.0);
                let r = x.map(|x| x.1.root()).unwrap_or(root(&[]));
                check(same(&t.hash().0, &r), 23);
            }
            // after
            let old = w.clone();
            if i == 0 {
                w.beacon(self.time, self.beacon_root);
            }
            for k in i..i + n {
                w.apply(&self.txs[k].traces, self.status[k]);
                gas += self.txs[k].meta.gas_used;
            }
            if last {
                for (a, x) in &self.withdrawals {
                    let mut y = w.fetch(a);
                    y.bal = y.bal + *x * U256::from(1_000_000_000u64);
                    w.0.insert(*a, y);
                }
            }
            check(same(&g.trie_roots_after.state_root.0, &w.root()), 30);
            check(same(&g.trie_roots_after.transactions_root.0, &trie_of(&codes[..i + n])), 31);
            check(same(&g.trie_roots_after.receipts_root.0, &trie_of(&receipts[..i + n])), 32);
            check(g.gas_used_after == U256::from(gas), 33);
            check(g.withdrawals.len() == if last { self.withdrawals.len() } else { 0 }, 34);
            for (a, b) in g.withdrawals.iter().zip(&self.withdrawals) {
                check(a.0 == b.0 && a.1 == b.1 * U256::from(1_000_000_000u64), 35);
            }
            // what the payload shows suffices
            let mut seen = false;
            for (hh, b) in &g.contract_code {
                check(hh.0 == keccak(b), 40);
                seen |= b.is_empty();
            }
            check(seen, 41);
            let find = |a: &Address| g.tries.storage_tries.iter().find(|x| x.0 .0 == keccak(&a.0));
            for k in i..i + n {
                for (a, t) in &self.txs[k].traces {
                    if let Some(x) = old.0.get(a) {
                        let v = g.tries.state_trie.get(nibbles(&nibs(&keccak(&a.0))));
                        check(v.is_some() && same(v.unwrap_or(&[]), &x.rlp()), 42);
                        for s in t.storage_read.iter().chain(t.storage_written.keys()) {
                            if let Some(y) = x.slots.get(&U256::from_big_endian(&s.0)) {
                                let v = find(a).and_then(|t| t.1.get(nibbles(&nibs(&keccak(&s.0)))));
                                check(v.is_some() && same(v.unwrap_or(&[]), &rlp_num(*y)), 43);
                            }
                        }
                    }
                    let need = match &t.code_usage {
                        Some(ContractCodeUsage::Read(h)) => Some(h.0),
                        Some(ContractCodeUsage::Write(b)) => Some(keccak(b)),
                        None => None,
                    };
                    if let Some(c) = need {
                        check((!old.0.contains_key(a) && !self.status[k]) || g.contract_code.contains_key(&H256(c)), 44);
                    }
                }
            }
            for (a, x) in &w.0 {
                let same_life = old.0.get(a).is_some_and(|o| o.life == x.life);
                let before = if same_life { old.0[a].entries() } else { vec![] };
                let after = x.entries();
                if before.len() == after.len() && before.iter().zip(&after).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1)) {
                    continue;
                }
                let t = match find(a) {
                    Some(t) if same_life => t.1.clone(),
                    _ => {
                        check(before.is_empty(), 45);
                        HashedPartialTrie::new(Node::Empty)
                    }
                };
                check(same(&update(&t, &before, &after, &[]).hash().0, &x.root()), 46);
            }
            let replaced: Vec<Vec<u8>> = w.0.iter().filter(|(a, x)| old.0.get(a).is_some_and(|o| o.life != x.life)).map(|(a, _)| nibs(&keccak(&a.0))).collect();
            check(same(&update(&g.tries.state_trie, &old.entries(), &w.entries(), &replaced).hash().0, &w.root()), 47);
            let mut t = copy(&g.tries.transactions_trie);
            let mut r = copy(&g.tries.receipts_trie);
            for k in i..i + n {
                check(t.insert(nibbles(&index(k)), codes[k].clone()).is_ok() && r.insert(nibbles(&index(k)), receipts[k].clone()).is_ok(), 48);
            }
            check(same(&t.hash().0, &trie_of(&codes[..i + n])) && same(&r.hash().0, &trie_of(&receipts[..i + n])), 49);
            i += n;
        }
        check(i == self.txs.len(), 16);
    }
}

// ------------------------------------------------------------ blocks
/// A number of two bytes: a high byte of its own, an arbitrary low one.
fn num(hi: u8) -> U256 {
    let lo: u8 = any();
    U256::from((hi as u64) << 8 | lo as u64)
}
fn txn(i: u8, status: bool, traces: Vec<(Address, TxnTrace)>) -> TxnInfo {
    let r = LegacyReceiptRlp { status, cum_gas_used: U256::from(21000 + i as u64), bloom: vec![0u8; 256].into(), logs: vec![] };
    let mut byte_code = vec![0xc0 + 2, i, 0x80];
    byte_code[2] = any();
    TxnInfo {
        traces: traces.into_iter().collect(),
        meta: TxnMeta { byte_code, new_receipt_trie_node_byte: rlp::encode(&r).to_vec(), gas_used: any::<u32>() as u64 },
    }
}
/// The block's state: the beacon contract and accounts whose hashed addresses share their first nibble with it or with each other.
fn pre(slots: &[u64]) -> World {
    let mut w = World::default();
    let mut b = Acct::new(b"beacon");
    b.nonce = U256::one();
    w.0.insert(BEACON, b);
    for (i, a) in [24u8, 36, 4, 25].iter().enumerate() {
        let mut x = Acct::new(b"");
        x.bal = num(0x10 + i as u8);
        x.nonce = U256::from(1 + i);
        if *a == 36 {
            x.code = keccak(b"code");
            for (j, s) in slots.iter().enumerate() {
                x.slots.insert(U256::from(*s), num(0x20 + j as u8));
            }
        }
        w.0.insert(addr(*a), x);
    }
    w
}
fn block(pre: World) -> Block {
    Block { pre, txs: vec![], status: vec![], hint: 1, time: U256::from(0x66554433u64), beacon_root: H256([0x77; 32]), withdrawals: vec![], codes: vec![b"code".to_vec()] }
}


/// A number that may be zero.
fn maybe(hi: u8) -> U256 {
    if pick(2) == 1 { num(hi) } else { U256::zero() }
}
fn slot(s: u64) -> H256 {
    h(U256::from(s))
}
fn wrote(ws: &[(u64, U256)]) -> TxnTrace {
    TxnTrace { storage_written: ws.iter().map(|(s, v)| (slot(*s), *v)).collect(), ..Default::default() }
}
/// One of the kinds of change a transaction makes to an account.
fn change(kind: usize, hi: u8) -> TxnTrace {
    let mut t = TxnTrace::default();
    match kind {
        0 => {}
        1 => t.balance = Some(num(hi)),
        2 => {
            t.balance = Some(num(hi));
            t.nonce = Some(U256::from(any::<u8>() | 1));
        }
        3 => {
            t.nonce = Some(U256::from(9));
            t.code_usage = Some(ContractCodeUsage::Write(vec![0x60, hi, 0x57]));
        }
        4 => {
            t.nonce = Some(U256::from(9));
            t.code_usage = Some(ContractCodeUsage::Read(H256(keccak(b"code"))));
        }
        5 => {
            t.balance = Some(U256::zero());
            t.self_destructed = true;
        }
        6 => {
            t = wrote(&[(2, num(hi)), (31, num(hi + 1))]);
            t.nonce = Some(U256::from(11));
        }
        7 => {
            t.storage_read = [slot(2), slot(7)].into_iter().collect();
            t.balance = Some(num(hi));
        }
        _ => {
            t = wrote(&[(2, U256::zero()), (7, U256::zero())]);
            t.nonce = Some(U256::from(12));
        }
    }
    t
}
const WHO: [u8; 6] = [24, 36, 25, 43, 50, 30];
impl Block {
    fn push(&mut self, status: bool, traces: Vec<(Address, TxnTrace)>) {
        let i = self.txs.len() as u8;
        self.txs.push(txn(i, status, traces));
        self.status.push(status);
    }
    fn held(&self) {
        let out = self.run();
        self.judge(&out);
    }
}
fn start() {
    hashes_are_real();
    panics_are_violations(true);
}

harnesses! {
    block_empty {
        start();
        let mut b = block(pre(&[2, 37]));
        b.hint = 1 + pick(3);
        b.held();
    }
    block_withdrawals {
        start();
        let mut b = block(pre(&[2, 37]));
        b.hint = 1 + pick(2);
        for i in 0..pick(3) {
            b.push(true, vec![(addr(24), change(1, 0x30 + i as u8))]);
        }
        for i in 0..pick(3) {
            b.withdrawals.push((addr([24, 43, 50][pick(3)]), U256::from(if i == 0 { 5_000_000 + (any::<u8>() & 7) as u64 } else { 6_000_000 })));
        }
        b.held();
    }
    block_one {
        start();
        let mut b = block(pre(&[2, 37]));
        b.push(pick(2) == 1, vec![(addr(WHO[pick(6)]), change(pick(9), 0x30))]);
        b.held();
    }
    block_batches {
        start();
        let mut b = block(pre(&[2, 37]));
        let n = pick(6);
        for i in 0..n {
            b.push(true, vec![(addr(24), change(1, 0x30 + i as u8)), (addr(43), change(1, 0x50 + i as u8))]);
        }
        b.hint = 1 + pick(6);
        b.held();
    }
    block_storage {
        start();
        let mut b = block(pre(&[2, 37, 7]));
        b.hint = 1 + pick(2);
        for i in 0..2 {
            let hi = 0x30 + 4 * i;
            let mut t = wrote(&[([2, 37, 31, 7][pick(4)], maybe(hi))]);
            t.nonce = Some(U256::from(9 + i));
            b.push(true, vec![(addr(36), t)]);
        }
        b.held();
    }
    block_storage_pair {
        start();
        let mut b = block(pre(&[2, 37, 7]));
        b.hint = 2;
        let k = pick(2) as u64;
        let mut t = wrote(&[([2, 37, 7][pick(3)], maybe(0x30)), (if k == 0 { 31 } else { 3 }, maybe(0x34))]);
        if pick(2) == 1 {
            t.storage_read.insert(slot(37));
        }
        b.push(true, vec![(addr(24), change(2, 0x40)), (addr(36), t)]);
        b.push(pick(2) == 1, vec![(addr(24), change(2, 0x41)), (addr(36), wrote(&[(if k == 0 { 31 } else { 3 }, maybe(0x38))]))]);
        b.held();
    }
    block_accounts {
        start();
        let mut b = block(pre(&[2]));
        b.hint = 1 + pick(2);
        for i in 0..2 {
            b.push(pick(2) == 1, vec![(addr([36, 43, 50][pick(3)]), change([0, 1, 5][pick(3)], 0x30 + 4 * i as u8))]);
        }
        b.held();
    }
    block_beacon {
        start();
        let mut p = pre(&[2]);
        let time = U256::from(8191 * 3 + [2u64, 37][pick(2)]);
        let at = (time % U256::from(8191)).as_u64();
        for (i, s) in [at, at + 8191, 31].iter().enumerate() {
            if pick(2) == 1 {
                p.0.get_mut(&BEACON).unwrap().slots.insert(U256::from(*s), num(0x60 + i as u8));
            }
        }
        let mut b = block(p);
        b.time = time;
        if pick(2) == 1 {
            b.beacon_root = H256::zero();
        }
        if pick(2) == 1 {
            b.push(true, vec![(addr(24), change(1, 0x30)), (BEACON, wrote(&[(31, maybe(0x31))]))]);
        }
        b.held();
    }
    block_accounts_three {
        start();
        let mut b = block(pre(&[2]));
        b.hint = 1 + pick(3);
        for i in 0..3 {
            b.push(pick(2) == 1, vec![(addr([36, 43, 50][pick(3)]), change([1, 5][pick(2)], 0x30 + 4 * i as u8))]);
        }
        b.held();
    }
    block_storage_three {
        start();
        let mut b = block(pre(&[2, 37, 7]));
        b.hint = 1 + pick(3);
        for i in 0..3 {
            let hi = 0x30 + 4 * i;
            let mut t = wrote(&[([2, 37, 31, 7][pick(4)], maybe(hi))]);
            t.nonce = Some(U256::from(9 + i));
            b.push(true, vec![(addr(36), t)]);
        }
        b.held();
    }
    block_two {
        start();
        let mut b = block(pre(&[2, 37]));
        b.hint = 1 + pick(2);
        for i in 0..2 {
            b.push(true, vec![(addr(WHO[pick(6)]), change(pick(9), 0x30 + 4 * i as u8))]);
        }
        b.held();
    }
}
