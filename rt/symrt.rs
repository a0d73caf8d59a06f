//! Harness runtime.  With `--cfg sym` the functions are the symbolic
//! executor's entry points; without it they replay a recorded assignment
//! against the natively compiled code.
#[cfg(sym)]
mod imp {
    extern "C" {
        fn sym_u64() -> u64;
        fn sym_u32() -> u32;
        fn sym_u8() -> u8;
        fn sym_u1() -> bool;
        fn sym_choose(n: u64) -> u64;
        fn sym_param(p: *const u8, n: usize, d: u64) -> u64;
        fn sym_concretize(v: u64) -> u64;
        fn sym_assume(b: bool);
        fn sym_check(b: bool, p: *const u8, n: usize);
        fn sym_cover(p: *const u8, n: usize);
        fn sym_log(v: u64);
        fn sym_merge(m: u64);
        fn sym_live() -> u64;
    }
    /// An arbitrary 64-bit value.
    #[inline(always)] pub fn any_u64() -> u64 { unsafe { sym_u64() } }
    #[inline(always)] pub fn any_u32() -> u32 { unsafe { sym_u32() } }
    #[inline(always)] pub fn any_u8() -> u8 { unsafe { sym_u8() } }
    #[inline(always)] pub fn any_bool() -> bool { unsafe { sym_u1() } }
    /// Every value below `n`, one execution each.
    #[inline(always)] pub fn choose(n: u64) -> u64 { unsafe { sym_choose(n) } }
    /// A bound of the harness, set by the driver.
    #[inline(always)] pub fn param(k: &'static str, d: u64) -> u64 { unsafe { sym_param(k.as_ptr(), k.len(), d) } }
    /// Split into one execution per feasible value.
    #[inline(always)] pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
    #[inline(always)] pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    #[inline(always)] pub fn check(b: bool, m: &'static str) { unsafe { sym_check(b, m.as_ptr(), m.len()) } }
    #[inline(always)] pub fn cover(m: &'static str) { unsafe { sym_cover(m.as_ptr(), m.len()) } }
    #[inline(always)] pub fn log(v: u64) { unsafe { sym_log(v) } }
    #[inline(always)] pub fn merge(m: u64) { unsafe { sym_merge(m) } }
    #[inline(always)] pub fn live() -> u64 { unsafe { sym_live() } }
    #[inline(always)] pub fn order(o: u8) { gvstd::model::set_order(o) }
    #[inline(always)] pub fn native() -> bool { false }
}

#[cfg(not(sym))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::io::Write;
    use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
    use std::sync::Mutex;

    struct Counting;
    static LIVE: AtomicI64 = AtomicI64::new(0);
    // Remembers each allocation's size in front of it (the sanitizer build leaves that to the sanitizer).
    fn wide(l: Layout, n: usize) -> Layout { if cfg!(asan) { unsafe { Layout::from_size_align_unchecked(n, l.align()) } } else { match Layout::from_size_align(n.saturating_add(l.align().max(16)), l.align().max(16)) { Ok(l) => l, Err(_) => l } } }
    fn pad(l: Layout) -> usize { if cfg!(asan) { 0 } else { l.align().max(16) } }
    unsafe fn tag(p: *mut u8, l: Layout, n: usize) -> *mut u8 { if cfg!(asan) || p.is_null() { return p } let q = p.add(pad(l)); *(q.sub(8) as *mut usize) = n; q }
    unsafe fn untag(q: *mut u8, l: Layout) -> *mut u8 {
        if cfg!(asan) { return q }
        if *(q.sub(8) as *mut usize) != l.size() { emit(b"PANIC\treleased with a size other than the allocated one\n"); end(10) }
        q.sub(pad(l))
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > isize::MAX as usize - 64 { return std::ptr::null_mut() } LIVE.fetch_add(1, SeqCst); tag(System.alloc(wide(l, l.size())), l, l.size()) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() > isize::MAX as usize - 64 { return std::ptr::null_mut() } LIVE.fetch_add(1, SeqCst); tag(System.alloc_zeroed(wide(l, l.size())), l, l.size()) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > isize::MAX as usize - 64 { return std::ptr::null_mut() } let p = untag(p, l); let w = wide(l, n); tag(System.realloc(p, wide(l, l.size()), w.size()), l, n) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); let w = wide(l, l.size()); System.dealloc(untag(p, l), w) }
    }
    #[global_allocator]
    static A: Counting = Counting;

    static INPUTS: Mutex<Vec<(u16, u128)>> = Mutex::new(Vec::new());
    static POS: AtomicUsize = AtomicUsize::new(0);
    static PARAMS: Mutex<Vec<(String, u64)>> = Mutex::new(Vec::new());
    const OUT: usize = 1 << 16;
    static mut BUF: [u8; OUT] = [0; OUT];
    static FILL: AtomicUsize = AtomicUsize::new(0);

    // Output goes through a fixed buffer so that it does not disturb `live`.
    fn emit(s: &[u8]) { for b in s { let i = FILL.fetch_add(1, SeqCst); if i < OUT { unsafe { BUF[i] = *b } } } }
    fn num(mut v: u64) { let mut t = [0u8; 20]; let mut i = 20; loop { i -= 1; t[i] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break; } } emit(&t[i..]) }
    fn end(code: i32) -> ! {
        let n = FILL.load(SeqCst).min(OUT);
        #[allow(static_mut_refs)]
        let _ = std::io::stdout().write_all(unsafe { &BUF[..n] });
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
    fn next(w: u16) -> u128 {
        let g = INPUTS.lock().unwrap();
        let i = POS.fetch_add(1, SeqCst);
        match g.get(i) { Some((x, v)) if *x == w => *v, _ => { emit(b"DIVERGED\n"); drop(g); end(3) } }
    }
    pub fn any_u64() -> u64 { next(64) as u64 }
    pub fn any_u32() -> u32 { next(32) as u32 }
    pub fn any_u8() -> u8 { next(8) as u8 }
    pub fn any_bool() -> bool { next(1) != 0 }
    pub fn choose(n: u64) -> u64 { let v = next(64) as u64; if v >= n { emit(b"DIVERGED\n"); end(3) } v }
    pub fn param(k: &'static str, d: u64) -> u64 { PARAMS.lock().unwrap().iter().find(|p| p.0 == k).map_or(d, |p| p.1) }
    pub fn concretize(v: u64) -> u64 { v }
    pub fn assume(b: bool) { if !b { emit(b"ASSUME\n"); end(3) } }
    pub fn check(b: bool, m: &'static str) { if !b { emit(b"CHECK\t"); emit(m.as_bytes()); emit(b"\n"); end(10) } }
    pub fn cover(m: &'static str) { emit(b"COVER\t"); emit(m.as_bytes()); emit(b"\n") }
    pub fn log(v: u64) { emit(b"LOG\t"); num(v); emit(b"\n") }
    pub fn merge(_: u64) {}
    pub fn live() -> u64 { LIVE.load(SeqCst) as u64 }
    pub fn order(_: u8) {}
    pub fn native() -> bool { true }

    /// Usage: BIN HARNESS INPUTS [k=v ...] where INPUTS is w:value,w:value,...
    pub fn main(table: &[(&str, extern "C" fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let f = match table.iter().find(|t| t.0 == a[1]) { Some(t) => t.1, None => { println!("NOHARNESS"); std::process::exit(4) } };
        let mut v = Vec::new();
        for x in a[2].split(',').filter(|x| !x.is_empty()) { let (w, n) = x.split_once(':').unwrap(); v.push((w.parse().unwrap(), n.parse().unwrap())); }
        *INPUTS.lock().unwrap() = v;
        *PARAMS.lock().unwrap() = a[3..].iter().map(|x| { let (k, n) = x.split_once('=').unwrap(); (k.to_string(), n.parse().unwrap()) }).collect();
        std::panic::set_hook(Box::new(|i| {
            emit(b"PANIC\t");
            let m = i.to_string().replace('\n', " ");
            emit(m.as_bytes());
            emit(b"\n");
            end(10)
        }));
        f();
        emit(b"DONE\n");
        end(0)
    }
}
pub use imp::*;

/// Defines harness entry points usable both symbolically and natively.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$a:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$a])* #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b)*
        #[cfg(not(sym))]
        fn main() { $crate::main(&[$((stringify!($n), $n as extern "C" fn())),*]) }
    };
}
