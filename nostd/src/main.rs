//! Histories run with nothing but core and alloc, or (feature `host`) with the standard library.
//!
//! Arguments: run SEED FROM COUNT | show SEED CASE
#![cfg_attr(not(feature = "host"), no_std, no_main)]

extern crate alloc;

mod work;

#[cfg(feature = "host")]
fn main() {
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {i}");
        std::process::exit(3);
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    work::main(&args, &mut |s| print!("{s}"));
}

#[cfg(not(feature = "host"))]
mod bare {
    use alloc::vec::Vec;
    use core::alloc::{GlobalAlloc, Layout};

    #[cfg(miri)]
    mod sys {
        use core::alloc::Layout;
        extern "Rust" {
            fn miri_alloc(size: usize, align: usize) -> *mut u8;
            fn miri_dealloc(p: *mut u8, size: usize, align: usize);
            fn miri_write_to_stdout(b: &[u8]);
        }
        pub unsafe fn alloc(l: Layout) -> *mut u8 {
            miri_alloc(l.size(), l.align())
        }
        pub unsafe fn dealloc(p: *mut u8, l: Layout) {
            miri_dealloc(p, l.size(), l.align())
        }
        pub fn print(s: &str) {
            unsafe { miri_write_to_stdout(s.as_bytes()) }
        }
        pub fn exit() -> ! {
            // Ends the interpretation: only called after a panic.
            unsafe { core::hint::unreachable_unchecked() }
        }
        #[no_mangle]
        fn miri_start(argc: isize, argv: *const *const u8) -> isize {
            unsafe { super::start(argc as usize, argv) };
            0
        }
    }

    #[cfg(not(miri))]
    mod sys {
        use core::alloc::Layout;
        #[link(name = "c")]
        extern "C" {
            fn aligned_alloc(align: usize, size: usize) -> *mut u8;
            fn free(p: *mut u8);
            fn write(fd: i32, p: *const u8, n: usize) -> isize;
            fn _exit(n: i32) -> !;
        }
        pub unsafe fn alloc(l: Layout) -> *mut u8 {
            let a = l.align().max(16);
            aligned_alloc(a, (l.size() + a - 1) / a * a)
        }
        pub unsafe fn dealloc(p: *mut u8, _: Layout) {
            free(p)
        }
        pub fn print(s: &str) {
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = unsafe { write(1, b.as_ptr(), b.len()) };
                if n <= 0 {
                    exit();
                }
                b = &b[n as usize..];
            }
        }
        pub fn exit() -> ! {
            unsafe { _exit(3) }
        }
        // liballoc comes compiled with unwinding: these are named there, and never called.
        #[no_mangle]
        extern "C" fn _Unwind_Resume() -> ! {
            exit()
        }
        #[no_mangle]
        extern "C" fn rust_eh_personality() {}
        #[no_mangle]
        extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
            unsafe { super::start(argc as usize, argv) };
            0
        }
    }

    struct Heap;
    unsafe impl GlobalAlloc for Heap {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            sys::alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            sys::dealloc(p, l)
        }
    }
    #[global_allocator]
    static HEAP: Heap = Heap;

    #[panic_handler]
    fn panicked(i: &core::panic::PanicInfo<'_>) -> ! {
        sys::print(&alloc::format!("PANIC {i}\n"));
        sys::exit()
    }

    unsafe fn start(argc: usize, argv: *const *const u8) {
        let args: Vec<&str> = (1..argc)
            .filter_map(|i| core::ffi::CStr::from_ptr((*argv.add(i)).cast()).to_str().ok())
            .collect();
        crate::work::main(&args, &mut |s| sys::print(s));
    }
}
