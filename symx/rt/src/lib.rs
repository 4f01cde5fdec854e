//! What a harness asks of its executor: under `cfg(symx)` the symbolic engine, otherwise a replay of given inputs.
#[cfg(symx)]
mod sys {
    extern "C" {
        pub fn symx_bytes(p: *mut u8, n: usize);
        pub fn symx_assume(c: bool);
        pub fn symx_check(c: bool, id: u32);
        pub fn symx_cover(id: u32);
        pub fn symx_panics(mode: u32);
        pub fn symx_concrete(x: u64) -> u64;
        pub fn symx_branch(b: bool) -> bool;
        pub fn symx_hash(id: u32, p: *const u8, n: usize, o: *mut u8, m: usize);
        pub fn symx_hash_mode(mode: u32);
    }
}
#[cfg(not(symx))]
mod sys {
    use std::cell::RefCell;
    thread_local! {
        pub static IN: RefCell<Vec<(u32, u128)>> = RefCell::new(vec![]);
        pub static MODE: RefCell<u32> = RefCell::new(0);
    }
    pub struct Stop(pub String);
    pub fn stop(s: String) -> ! {
        std::panic::panic_any(Stop(s))
    }
    pub unsafe fn symx_bytes(p: *mut u8, n: usize) {
        let mut i = 0;
        while i < n {
            let (w, v) = IN.with(|x| {
                let mut x = x.borrow_mut();
                if x.is_empty() { (((n - i).min(8) * 8) as u32, 0) } else { x.remove(0) }
            });
            for k in 0..(w as usize / 8) {
                if i < n {
                    *p.add(i) = (v >> (8 * k)) as u8;
                    i += 1;
                }
            }
        }
    }
    pub unsafe fn symx_assume(c: bool) {
        if !c { stop("assume".into()) }
    }
    pub unsafe fn symx_check(c: bool, id: u32) {
        if !c { stop(format!("violation {id}")) }
    }
    pub unsafe fn symx_cover(_: u32) {}
    pub unsafe fn symx_panics(mode: u32) {
        MODE.with(|m| *m.borrow_mut() = mode)
    }
    pub unsafe fn symx_concrete(x: u64) -> u64 { x }
    pub unsafe fn symx_branch(b: bool) -> bool { b }
    pub unsafe fn symx_hash_mode(_: u32) {}
    pub unsafe fn symx_hash(id: u32, p: *const u8, n: usize, o: *mut u8, m: usize) {
        use tiny_keccak::Hasher;
        let mut done = 0;
        let mut k = 0u32;
        while done < m {
            let mut h = tiny_keccak::Keccak::v256();
            if id != 0 || k != 0 {
                h.update(&id.to_le_bytes());
                h.update(&k.to_le_bytes());
            }
            h.update(std::slice::from_raw_parts(p, n));
            let mut r = [0u8; 32];
            h.finalize(&mut r);
            let l = (m - done).min(32);
            std::ptr::copy_nonoverlapping(r.as_ptr(), o.add(done), l);
            done += l;
            k += 1;
        }
    }
}

/// An arbitrary value (plain integers and arrays of them only).
#[inline]
pub fn any<T: Copy>() -> T {
    unsafe {
        let mut x = std::mem::zeroed::<T>();
        sys::symx_bytes(&mut x as *mut T as *mut u8, std::mem::size_of::<T>());
        x
    }
}
/// n arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sys::symx_bytes(v.as_mut_ptr(), n) };
    v
}
#[inline]
pub fn assume(c: bool) { unsafe { sys::symx_assume(c) } }
/// The property: `c` holds for every input that reaches this line.
#[inline]
pub fn check(c: bool, id: u32) { unsafe { sys::symx_check(c, id) } }
#[inline]
pub fn cover(id: u32) { unsafe { sys::symx_cover(id) } }
/// Whether a panic from here on is a violation (true) or only ends the path (false).
#[inline]
pub fn panics_are_violations(b: bool) { unsafe { sys::symx_panics(!b as u32) } }
/// An arbitrary number below n, made concrete (one path per value).
pub fn pick(n: usize) -> usize {
    let x: u8 = any();
    assume((x as usize) < n);
    unsafe { sys::symx_concrete(x as u64) as usize }
}
pub fn concrete(x: u64) -> u64 { unsafe { sys::symx_concrete(x) } }
/// Splits the path on b now.
pub fn branch(b: bool) -> bool { unsafe { sys::symx_branch(b) } }
/// Uninterpreted injective function number `id` (hash 0 is keccak256 when replaying).
pub fn hash<const M: usize>(id: u32, x: &[u8]) -> [u8; M] {
    let mut o = [0u8; M];
    unsafe { sys::symx_hash(id, x.as_ptr(), x.len(), o.as_mut_ptr(), M) };
    o
}
/// From here on every hash value is a fixed one per class of equal inputs (the path splits on their equality), not a symbol.
pub fn hashes_are_concrete() { unsafe { sys::symx_hash_mode(1) } }
/// As `hashes_are_concrete`, with keccak256 itself on inputs that have no symbolic bytes.
pub fn hashes_are_real() { unsafe { sys::symx_hash_mode(3) } }
/// Equality of byte strings as one condition (no branch per byte).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// Native replay: each line of standard input is `function [bits:value]...`; one verdict per line.
#[cfg(not(symx))]
pub fn replay(fns: &[(&str, extern "C-unwind" fn())]) {
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let name = match it.next() {
            Some(n) => n,
            None => continue,
        };
        let f = fns.iter().find(|x| x.0 == name).expect("harness").1;
        sys::IN.with(|x| {
            *x.borrow_mut() = it.map(|p| { let (w, v) = p.split_once(':').unwrap(); (w.parse().unwrap(), v.parse().unwrap()) }).collect()
        });
        sys::MODE.with(|m| *m.borrow_mut() = 0);
        let r = std::panic::catch_unwind(|| f());
        let s = match r {
            Ok(()) => "ok".to_string(),
            Err(e) => match e.downcast_ref::<sys::Stop>() {
                Some(s) => s.0.clone(),
                None => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ");
                    if sys::MODE.with(|m| *m.borrow()) == 0 { format!("panic {m}") } else { "silent".to_string() }
                }
            },
        };
        println!("{s}");
    }
}

/// Harness functions: exported for the engine, listed for the replay.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $( #[no_mangle] pub extern "C-unwind" fn $name() { $body } )*
        pub const ALL: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
