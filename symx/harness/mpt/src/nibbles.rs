use crate::*;
use mpt_trie::nibbles::ToNibbles;
use ethereum_types::{H256, U256};

fn key() -> L {
    L::any(pick(65))
}
/// A key of a boundary length.
fn bkey() -> L {
    const N: [usize; 10] = [0, 1, 2, 3, 15, 16, 17, 33, 63, 64];
    L::any(N[pick(10)])
}

harnesses! {
    nib_get {
        let l = key();
        let k = l.nib();
        check(k.is_empty() == (l.n == 0), 1);
        check(k.min_bytes() == (l.n + 1) / 2, 2);
        for i in 0..l.n {
            check(k.get_nibble(i) == l.x[i], 3);
        }
        if l.n > 0 {
            let mut f = k;
            check(f.pop_next_nibble_front() == l.x[0], 4);
            is(&f, &l.s()[1..], 5);
            let mut b = k;
            check(b.pop_next_nibble_back() == l.x[l.n - 1], 6);
            is(&b, &l.s()[..l.n - 1], 7);
        }
        let mut r = l.s().to_vec();
        r.reverse();
        is(&k.reverse(), &r, 8);
    }
    nib_push {
        let l = L::any(pick(64));
        let x = any::<u8>() & 15;
        let mut f = l.nib();
        f.push_nibble_front(x);
        is(&f, L::of(&[x]).cat(l.s()).s(), 10);
        let mut b = l.nib();
        b.push_nibble_back(x);
        is(&b, l.cat(&[x]).s(), 11);
        is(&l.nib().merge_nibble(x), l.cat(&[x]).s(), 12);
        is(&Nibbles::from_nibble(x), &[x], 13);
    }
    nib_split {
        let l = key();
        let i = pick(l.n + 1);
        let k = l.nib();
        let (pre, post) = l.s().split_at(i);
        let (a, b) = k.split_at_idx(i);
        is(&a, pre, 20);
        is(&b, post, 21);
        is(&k.split_at_idx_prefix(i), pre, 22);
        is(&k.split_at_idx_postfix(i), post, 23);
        is(&k.get_next_nibbles(i), pre, 24);
        let mut f = k;
        is(&f.pop_nibbles_front(i), pre, 25);
        is(&f, post, 26);
        is(&k.truncate_n_nibbles_front(i), post, 27);
        let (head, tail) = l.s().split_at(l.n - i);
        is(&k.truncate_n_nibbles_back(i), head, 28);
        let mut b = k;
        let mut r = tail.to_vec();
        r.reverse();
        is(&b.pop_nibbles_back(i), &r, 29);
        is(&b, head, 30);
        is(&a.merge_nibbles(&L::of(post).nib()), l.s(), 31);
        let mut p = L::of(pre).nib();
        p.push_nibbles_back(&L::of(post).nib());
        is(&p, l.s(), 32);
        let mut p = L::of(post).nib();
        p.push_nibbles_front(&L::of(pre).nib());
        is(&p, l.s(), 33);
    }
    nib_trunc_over {
        let l = bkey();
        let more = 1 + pick(3);
        is(&l.nib().truncate_n_nibbles_front(l.n + more), &[], 36);
        is(&l.nib().truncate_n_nibbles_back(l.n + more), &[], 37);
    }
    nib_range {
        let l = bkey();
        let i = pick(l.n + 1);
        let j = i + pick(l.n - i + 1);
        is(&l.nib().get_nibble_range(i..j), &l.s()[i..j], 40);
    }
    nib_cmp {
        let a = bkey();
        let b = bkey();
        let m = a.n.min(b.n);
        let mut d = m;
        for i in (0..m).rev() {
            if a.x[i] != b.x[i] {
                d = i;
            }
        }
        let (x, y) = (a.nib(), b.nib());
        check(x.nibbles_are_identical_up_to_smallest_count(&y) == (d == m), 45);
        check(Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&x, &y) == d, 46);
        if a.n == b.n {
            check(Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&x, &y) == d, 47);
        }
        check((x == y) == (a.n == b.n && d == m), 48);
    }
    nib_hex_prefix {
        let l = key();
        let leaf: bool = any::<u8>() & 1 == 1;
        let e = l.nib().to_hex_prefix_encoding(leaf);
        // Yellow paper, appendix C
        let odd = l.n % 2;
        let mut want = vec![0u8; 1 + l.n / 2];
        want[0] = ((leaf as u8) * 2 + odd as u8) * 16;
        if odd == 1 {
            want[0] += l.x[0];
        }
        for i in 0..l.n / 2 {
            want[1 + i] = l.x[odd + 2 * i] * 16 + l.x[odd + 2 * i + 1];
        }
        check(same(&e, &want), 50);
        // and back; a leaf is returned with its terminator, the byte 16
        match Nibbles::from_hex_prefix_encoding(&want) {
            Err(_) => check(false, 51),
            Ok(k) => {
                if leaf { is(&k, l.cat(&[1, 0]).s(), 52) } else { is(&k, l.s(), 53) }
            }
        }
    }
    nib_hex_prefix_bad {
        let n = 1 + pick(33);
        let b = bytes(n);
        check(Nibbles::from_hex_prefix_encoding(&b).is_err() == (b[0] >> 4 > 3), 55);
        check(Nibbles::from_hex_prefix_encoding(&[0u8; 34]).is_err(), 56);
    }
    nib_bytes {
        let n = pick(35);
        let b = bytes(n);
        let mut l = vec![];
        for x in &b {
            l.push(x >> 4);
            l.push(x & 15);
        }
        match Nibbles::from_bytes_be(&b) {
            Ok(k) => {
                check(n > 0 && n <= 33, 60);
                is(&k, &l, 61);
                check(same(&k.bytes_be(), &b), 62);
                let mut le = b.clone();
                le.reverse();
                match Nibbles::from_bytes_le(&le) {
                    Ok(k) => is(&k, &l, 63),
                    Err(_) => check(false, 64),
                }
                let mut sl = k.as_byte_slice().to_vec();
                sl.reverse();
                check(same(&sl, &b), 65);
            }
            Err(_) => check(n == 0 || n > 33, 66),
        }
    }
    nib_h256 {
        let b: [u8; 32] = any();
        let mut l = vec![];
        for x in b {
            l.push(x >> 4);
            l.push(x & 15);
        }
        is(&Nibbles::from_h256_be(H256(b)), &l, 70);
        let mut r = b;
        r.reverse();
        is(&Nibbles::from_h256_le(H256(r)), &l, 71);
        check(same(H256::from(L::of(&l).nib()).as_bytes(), &b), 72);
        let u = U256::from_big_endian(&b);
        let v: Result<U256, _> = L::of(&l).nib().try_into();
        match v {
            Ok(v) => check(((v.0[0] ^ u.0[0]) | (v.0[1] ^ u.0[1]) | (v.0[2] ^ u.0[2]) | (v.0[3] ^ u.0[3])) == 0, 73),
            Err(_) => check(false, 74),
        }
    }
    nib_int {
        // an integer becomes its shortest list of nibbles; byte-padded: an even number of them
        let v: u64 = any();
        let mut n = 0;
        while n < 16 && branch(v >> (4 * n) != 0) {
            n += 1;
        }
        let mut l = L { n, x: [0; 80] };
        for i in 0..n {
            l.x[i] = (v >> (4 * (n - 1 - i))) as u8 & 15;
        }
        is(&v.to_nibbles(), l.s(), 80);
        is(&Nibbles::from(v), l.s(), 81);
        let p = v.to_nibbles_byte_padded();
        if n % 2 == 1 { is(&p, L::of(&[0]).cat(l.s()).s(), 82) } else { is(&p, l.s(), 83) }
        let u = U256([v, 0, 0, 0]);
        is(&u.to_nibbles(), l.s(), 84);
    }
}
