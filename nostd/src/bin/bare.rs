//! C21: without the standard library: a C main, a page of memory, and a panic handler
#![no_std]
#![no_main]
include!("../work.rs");
use core::alloc::{GlobalAlloc, Layout};
use core::ffi::{c_char, c_int, c_void};
#[link(name = "c")]
extern "C" {
    fn write(fd: c_int, p: *const c_void, n: usize) -> isize;
    fn _exit(code: c_int) -> !;
    fn atoi(s: *const c_char) -> c_int;
}
/// Hands out one array from front to back
const SIZE: usize = 64 << 20;
#[repr(align(4096))]
struct Arena(core::cell::UnsafeCell<[u8; SIZE]>);
unsafe impl Sync for Arena {}
static ARENA: Arena = Arena(core::cell::UnsafeCell::new([0; SIZE]));
static AT: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let at = (AT.load(SeqCst) + l.align() - 1) & !(l.align() - 1);
        if at + l.size() > SIZE {
            return core::ptr::null_mut();
        }
        AT.store(at + l.size(), SeqCst);
        (ARENA.0.get() as *mut u8).add(at)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        p.write_bytes(0xdd, l.size())
    }
}
#[global_allocator]
static GLOBAL: A = A;
fn print(s: &str) {
    unsafe {
        write(1, s.as_ptr() as *const c_void, s.len());
        write(1, b"\n".as_ptr() as *const c_void, 1);
    }
}
#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    print("panicked");
    struct E;
    impl Write for E {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            unsafe { write(2, s.as_ptr() as *const c_void, s.len()) };
            Ok(())
        }
    }
    let _ = write!(E, "{}\n", i);
    unsafe { _exit(42) }
}
#[no_mangle]
extern "C" fn main(n: c_int, v: *const *const c_char) -> c_int {
    let arg = |i: c_int| if i < n { unsafe { atoi(*v.add(i as usize)) as u64 } } else { 0 };
    work(arg(1), if n > 2 { Some(arg(2)) } else { None }, &mut print);
    0
}
// the precompiled `alloc` was compiled for unwinding, which never happens here
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() -> ! {
    unsafe { _exit(43) }
}
