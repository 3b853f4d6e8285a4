//! Interface between the harnesses and what drives them: the symbolic executor (the
//! `sx_*` symbols stay undefined in the IR and the engine implements them) or, with the
//! `replay` feature, a native reader of one concrete assignment.
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
mod imp {
    unsafe extern "C" {
        fn sx_byte() -> u8;
        fn sx_u16() -> u16;
        fn sx_u32() -> u32;
        fn sx_u64() -> u64;
        fn sx_choose(n: u64) -> u64;
        fn sx_assume(c: bool);
        fn sx_assert(c: bool, p: *const u8, n: usize);
        fn sx_fail(p: *const u8, n: usize);
        fn sx_reach(id: u64);
        fn sx_known(id: u64);
        fn sx_conc(x: u64) -> u64;
        fn sx_is_sym(x: u64) -> bool;
        fn sx_print(p: *const u8, n: usize);
    }
    pub fn byte() -> u8 { unsafe { sx_byte() } }
    pub fn u16() -> u16 { unsafe { sx_u16() } }
    pub fn u32() -> u32 { unsafe { sx_u32() } }
    pub fn u64() -> u64 { unsafe { sx_u64() } }
    pub fn choose(n: usize) -> usize { unsafe { sx_choose(n as u64) as usize } }
    pub fn assume(c: bool) { unsafe { sx_assume(c) } }
    pub fn check(c: bool, m: &str) { unsafe { sx_assert(c, m.as_ptr(), m.len()) } }
    pub fn fail(m: &str) { unsafe { sx_fail(m.as_ptr(), m.len()) } }
    pub fn reach(id: u64) { unsafe { sx_reach(id) } }
    pub fn known(id: u64) { unsafe { sx_known(id) } }
    pub fn conc(x: u64) -> u64 { unsafe { sx_conc(x) } }
    pub fn is_sym(x: u64) -> bool { unsafe { sx_is_sym(x) } }
    pub fn print(s: &str) { unsafe { sx_print(s.as_ptr(), s.len()) } }
    pub const SYMBOLIC: bool = true;
}

#[cfg(feature = "replay")]
mod imp {
    use std::cell::RefCell;
    thread_local! { pub static IN: RefCell<(Vec<u64>, usize)> = const { RefCell::new((Vec::new(), 0)) }; }
    pub static VERBOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    fn next() -> u64 {
        IN.with(|c| {
            let mut c = c.borrow_mut();
            let i = c.1;
            c.1 += 1;
            match c.0.get(i) {
                Some(v) => *v,
                None => 0,
            }
        })
    }
    pub fn byte() -> u8 { next() as u8 }
    pub fn u16() -> u16 { next() as u16 }
    pub fn u32() -> u32 { next() as u32 }
    pub fn u64() -> u64 { next() }
    pub fn choose(n: usize) -> usize { (next() as usize).min(n - 1) }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUMPTION-FALSE");
            std::process::exit(0);
        }
    }
    pub fn check(c: bool, m: &str) {
        if !c {
            println!("ASSERTION-FAILED {m}");
            std::process::exit(3);
        }
    }
    pub fn fail(m: &str) { check(false, m) }
    pub fn reach(id: u64) { println!("REACH {id}"); }
    pub fn known(_: u64) {}
    pub fn conc(x: u64) -> u64 { x }
    pub fn is_sym(_: u64) -> bool { false }
    pub fn print(s: &str) { eprintln!("{s}"); }
    pub const SYMBOLIC: bool = false;
}
pub use imp::*;

static mut NOW: u64 = 1_700_000_000;
/// Sets the clock that the code under test reads (it stands still).
pub fn set_time(secs: u64) { unsafe { NOW = secs; } }
pub fn unset_time() { set_time(1_700_000_000); }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_: i32, ts: *mut i64) -> i32 {
    unsafe { *ts = NOW as i64; *ts.add(1) = 0; }
    0
}

/// `n` arbitrary ASCII bytes.
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// `n` ASCII bytes that XML 1.0 allows.
pub fn xml_ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80 && (b >= 0x20 || b == 9 || b == 10 || b == 13));
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// `n` printable ASCII bytes (0x20..=0x7e).
pub fn printable(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        assume((0x20..0x7f).contains(&b));
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// `n` bytes out of `set`, each position independent.
pub fn of_set(n: usize, set: &[u8]) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        let mut ok = false;
        for &s in set {
            ok |= b == s;
        }
        assume(ok);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// One arbitrary Unicode scalar of `k` UTF-8 bytes, appended to `v`.
pub fn push_char(v: &mut Vec<u8>, k: usize) {
    match k {
        1 => {
            let b = byte();
            assume(b < 0x80);
            v.push(b);
        }
        2 => {
            let (a, b) = (byte(), byte());
            assume((0xc2..=0xdf).contains(&a) & (0x80..=0xbf).contains(&b));
            v.extend_from_slice(&[a, b]);
        }
        3 => {
            let (a, b, c) = (byte(), byte(), byte());
            assume((0xe0..=0xef).contains(&a) & (0x80..=0xbf).contains(&b) & (0x80..=0xbf).contains(&c));
            assume((a != 0xe0) | (b >= 0xa0));
            assume((a != 0xed) | (b < 0xa0));
            v.extend_from_slice(&[a, b, c]);
        }
        _ => {
            let (a, b, c, d) = (byte(), byte(), byte(), byte());
            assume((0xf0..=0xf4).contains(&a) & (0x80..=0xbf).contains(&b) & (0x80..=0xbf).contains(&c) & (0x80..=0xbf).contains(&d));
            assume((a != 0xf0) | (b >= 0x90));
            assume((a != 0xf4) | (b < 0x90));
            v.extend_from_slice(&[a, b, c, d]);
        }
    }
}

/// Any valid UTF-8 string of exactly `n` bytes.
pub fn utf8(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let left = (n - v.len()).min(4);
        let k = 1 + choose(left);
        push_char(&mut v, k);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Any valid UTF-8 string of at most `max` bytes.
pub fn utf8_upto(max: usize) -> String {
    let n = choose(max + 1);
    utf8(n)
}

/// Any string of exactly `n` scalars, each encoded in 1 to 4 bytes.
pub fn chars(n: usize) -> String {
    let mut v = Vec::with_capacity(n * 4);
    for _ in 0..n {
        let k = 1 + choose(4);
        push_char(&mut v, k);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

pub fn flag() -> bool { choose(2) == 1 }

/// Byte equality without a data-dependent branch per byte.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn same_str(a: &str, b: &str) -> bool { same(a.as_bytes(), b.as_bytes()) }

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[unsafe(no_mangle)] pub extern "C-unwind" fn $n() $b)*
        #[allow(dead_code)]
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n as extern "C-unwind" fn())),*];
    };
}

/// Bound of the quick or of the thorough tier.
pub const fn n(quick: usize, thorough: usize) -> usize { if cfg!(feature = "thorough") { thorough } else { quick } }
pub const THOROUGH: bool = cfg!(feature = "thorough");
