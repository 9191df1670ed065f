//! Runtime shared by all harnesses.
//!
//! Without the `native` feature the functions below are calls into the symbolic
//! executor (`/verif/engine`), which recognises the `sym_*` symbols. With the
//! feature on, the same harness becomes an ordinary program which reads its
//! inputs from a byte string: that is how solver models are replayed against
//! the real code.

#[cfg(not(feature = "native"))]
mod imp {
    unsafe extern "C" {
        fn sym_bytes(p: *mut u8, n: usize);
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, id: u64);
        fn sym_cover(c: bool, id: u64);
        fn sym_param(i: u64) -> u64;
        fn sym_concretize(v: u64) -> u64;
        fn sym_observe(v: u64);
    }
    /// thread-local values are not dropped
    #[unsafe(no_mangle)]
    pub extern "C" fn __cxa_thread_atexit_impl(_: *mut u8, _: *mut u8, _: *mut u8) -> i32 {
        0
    }
    #[inline(never)]
    pub fn fill(b: &mut [u8]) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, id: u64) {
        unsafe { sym_assert(c, id) }
    }
    #[inline(always)]
    pub fn cover(c: bool, id: u64) {
        unsafe { sym_cover(c, id) }
    }
    #[inline(always)]
    pub fn param(i: u64) -> u64 {
        unsafe { sym_param(i) }
    }
    #[inline(always)]
    pub fn fix(v: u64) -> u64 {
        unsafe { sym_concretize(v) }
    }
    #[inline(always)]
    pub fn observe(v: u64) {
        unsafe { sym_observe(v) }
    }
    pub fn say(_: &str) {}
}

#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    pub struct Ctx {
        pub input: Vec<u8>,
        pub pos: usize,
        pub params: Vec<u64>,
        pub obs: Vec<u64>,
    }
    pub static CTX: Mutex<Ctx> = Mutex::new(Ctx {
        input: Vec::new(),
        pos: 0,
        params: Vec::new(),
        obs: Vec::new(),
    });
    unsafe extern "C" {
        fn dup(fd: i32) -> i32;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    /// where results are printed: the original standard output, whatever the harness does to it
    static OUT: std::sync::OnceLock<i32> = std::sync::OnceLock::new();
    fn line(s: &str) {
        let b = format!("{s}\n");
        let fd = *OUT.get_or_init(|| unsafe { dup(1) });
        let mut p = 0;
        while p < b.len() {
            let k = unsafe { write(fd, b.as_ptr().add(p), b.len() - p) };
            if k <= 0 {
                break;
            }
            p += k as usize;
        }
    }
    fn flush() {
        let c = CTX.lock().unwrap();
        let v: Vec<String> = c.obs.iter().map(|x| x.to_string()).collect();
        line(&format!("OBS {}", v.join(" ")));
    }
    pub fn fill(b: &mut [u8]) {
        let mut c = CTX.lock().unwrap();
        for x in b.iter_mut() {
            *x = c.input.get(c.pos).copied().unwrap_or(0);
            c.pos += 1;
        }
    }
    pub fn assume(ok: bool) {
        if !ok {
            line("ASSUME");
            std::process::exit(10);
        }
    }
    pub fn check(ok: bool, id: u64) {
        if !ok {
            line(&format!("ASSERT {id}"));
            flush();
            std::process::exit(20);
        }
    }
    pub fn cover(ok: bool, id: u64) {
        if ok {
            line(&format!("COVER {id}"));
        }
    }
    pub fn param(i: u64) -> u64 {
        CTX.lock().unwrap().params.get(i as usize).copied().unwrap_or(0)
    }
    pub fn fix(v: u64) -> u64 {
        v
    }
    pub fn observe(v: u64) {
        CTX.lock().unwrap().obs.push(v);
    }
    pub fn say(s: &str) {
        line(&format!("SAY {s}"));
    }
    pub fn run(table: &[(&str, fn())]) -> ! {
        let mut a = std::env::args().skip(1);
        let entry = a.next().expect("entry");
        let hex = a.next().unwrap_or_default();
        {
            let mut c = CTX.lock().unwrap();
            c.input = (0..hex.len() / 2)
                .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            c.params = a.map(|x| x.parse().unwrap()).collect();
        }
        OUT.get_or_init(|| unsafe { dup(1) });
        let f = table.iter().find(|x| x.0 == entry).expect("unknown entry").1;
        match std::panic::catch_unwind(f) {
            Ok(()) => {
                flush();
                line("DONE");
                std::process::exit(0)
            }
            Err(_) => {
                line("PANIC");
                flush();
                std::process::exit(21)
            }
        }
    }
}

pub use imp::*;

/// An existing, empty directory: of the file system model, or a scratch directory.
pub fn root() -> std::path::PathBuf {
    #[cfg(feature = "native")]
    return std::path::PathBuf::from(std::env::var("LSX_TMP").expect("LSX_TMP"));
    #[cfg(not(feature = "native"))]
    std::path::PathBuf::from("/w")
}

/// An arbitrary byte.
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
/// An arbitrary value in `0..n` (n <= 256), as a symbolic value.
pub fn below(n: u64) -> u64 {
    let b = byte() as u64;
    assume(b < n);
    b
}
/// An arbitrary value in `0..n`, one path per value.
pub fn pick(n: u64) -> usize {
    if n <= 1 {
        return 0;
    }
    fix(below(n)) as usize
}
pub fn flag() -> bool {
    let b = byte();
    assume(b < 2);
    b == 1
}
/// An arbitrary flag, one path per value.
pub fn flag_fixed() -> bool {
    pick(2) == 1
}
pub fn u16_any() -> u16 {
    let mut b = [0u8; 2];
    fill(&mut b);
    u16::from_le_bytes(b)
}
pub fn u32_any() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_le_bytes(b)
}
pub fn u64_any() -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b);
    u64::from_le_bytes(b)
}
/// `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
/// An arbitrary length in `lo..=hi`, one path per length.
pub fn len(lo: usize, hi: usize) -> usize {
    lo + pick((hi - lo + 1) as u64)
}
/// An arbitrary valid UTF-8 string of at most `max` bytes (one path per length
/// and per encoding shape).
pub fn string(max: usize) -> String {
    let n = len(0, max);
    string_exact(n)
}
pub fn string_exact(n: usize) -> String {
    let v = bytes(n);
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// An arbitrary ASCII string of exactly `n` bytes (0x00..=0x7f).
pub fn ascii(n: usize) -> String {
    let v = bytes(n);
    for b in &v {
        assume(*b < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// An arbitrary string of exactly `n` characters over `alphabet` (characters chosen
/// symbolically, so the alphabet must be ASCII).
pub fn over(alphabet: &[u8], n: usize) -> String {
    let v = bytes(n);
    for b in &v {
        let mut ok = false;
        for a in alphabet {
            ok |= *b == *a;
        }
        assume(ok);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Record a string for the translator validation.
pub fn observe_str(s: &str) {
    observe_bytes(s.as_bytes())
}
pub fn observe_bytes(s: &[u8]) {
    observe(s.len() as u64);
    for b in s {
        observe(*b as u64);
    }
}

#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        mod exported {
            $(
                #[unsafe(no_mangle)]
                pub extern "C" fn $name() { super::$name() }
            )*
        }
        #[cfg(feature = "native")]
        pub fn native_main() -> ! {
            $crate::run(&[$((stringify!($name), $name as fn())),*])
        }
    };
}

/// Every valid UTF-8 text obtained from `canon` by deleting at most `del` consecutive
/// bytes at any position and inserting at most `ins` arbitrary bytes there.
pub fn near(canon: &str, del: usize, ins: usize) -> String {
    let c = canon.as_bytes();
    let p = len(0, c.len());
    let d = len(0, if c.len() - p < del { c.len() - p } else { del });
    let k = len(0, ins);
    let w = bytes(k);
    let mut v = Vec::with_capacity(c.len() + k);
    v.extend_from_slice(&c[..p]);
    v.extend_from_slice(&w);
    v.extend_from_slice(&c[p + d..]);
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
