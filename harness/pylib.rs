// The C library for replays of the Python wrapper: the code under test with an
// allocator that counts, checks the size of what is released, and makes late uses crash.
use graphrox_c as _;
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

struct Checking;
static LIVE: AtomicI64 = AtomicI64::new(0);
extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32; }
const PAGE: usize = 4096;
fn head(n: usize, a: usize) -> usize { (n + a.max(16)).div_ceil(PAGE) * PAGE }
// Every object ends (up to its alignment) at a page that cannot be accessed, and becomes
// one when released; the page before it holds its size.
unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 32 || l.align() > PAGE { return std::ptr::null_mut() }
        let n = head(l.size(), l.align());
        let p = mmap(std::ptr::null_mut(), n + 2 * PAGE, 3, 0x22, -1, 0);
        if p as isize == -1 { return std::ptr::null_mut() }
        mprotect(p.add(PAGE + n), PAGE, 0);
        LIVE.fetch_add(1, SeqCst);
        let q = p.add(PAGE + (n - l.size()) / l.align() * l.align());
        *(p as *mut usize) = l.size();
        *(p as *mut usize).add(1) = q as usize;
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let n = head(l.size(), l.align());
        let p = ((q as usize + l.size()).div_ceil(PAGE) * PAGE - n - PAGE) as *mut usize;
        if *p != l.size() || *p.add(1) != q as usize {
            let _ = std::io::Write::write_all(&mut std::io::stdout(), b"PANIC\treleased with a size other than the allocated one, or twice\n");
            std::process::exit(10)
        }
        *p = usize::MAX;
        LIVE.fetch_sub(1, SeqCst);
        mprotect(p as *mut u8, n + 2 * PAGE, 0);
    }
}
#[global_allocator]
static A: Checking = Checking;
#[no_mangle] pub extern "C" fn gv_live() -> u64 { LIVE.load(SeqCst) as u64 }
#[no_mangle] pub extern "C" fn gv_ref() -> u64 { 0 }
