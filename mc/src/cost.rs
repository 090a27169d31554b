//! What an execution costs on this thread: basic blocks of the implementation
//! and how deep its stack gets (by the callbacks of the instrumented build, see
//! sched.rs), memory asked of the allocator, and bytes moved, set or compared.
//!
//! Only the instrumented build counts (`--cfg counted`).

use std::cell::Cell;

struct Now {
    blocks: Cell<u64>,
    /// The deepest address of the stack.
    deep: Cell<usize>,
    bytes: Cell<u64>,
    live: Cell<i64>,
    peak: Cell<i64>,
    moved: Cell<u64>,
}
thread_local! {
    static NOW: Now = const { Now {
        blocks: Cell::new(0),
        deep: Cell::new(usize::MAX),
        bytes: Cell::new(0),
        live: Cell::new(0),
        peak: Cell::new(0),
        moved: Cell::new(0),
    } };
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cost {
    pub blocks: u64,
    /// Bytes of stack.
    pub stack: u64,
    /// Bytes allocated in total.
    pub bytes: u64,
    /// The most bytes allocated at a time.
    pub peak: u64,
    /// Bytes that are still allocated.
    pub left: i64,
    pub moved: u64,
}

#[inline]
pub fn block() {
    let _ = NOW.try_with(|n| {
        n.blocks.set(n.blocks.get() + 1);
        let here = 0u8;
        let at = std::ptr::addr_of!(here) as usize;
        if at < n.deep.get() {
            n.deep.set(at);
        }
    });
}

/// What `f` costs, and what it returns (which is then not counted as left).
pub fn measure<R>(f: impl FnOnce() -> R) -> (Cost, R) {
    let here = 0u8;
    let top = std::ptr::addr_of!(here) as usize;
    let (b, m, l, a) = NOW.with(|n| {
        n.deep.set(top);
        n.peak.set(n.live.get());
        (n.blocks.get(), n.moved.get(), n.live.get(), n.bytes.get())
    });
    let r = f();
    let c = NOW.with(|n| Cost {
        blocks: n.blocks.get() - b,
        stack: (top - n.deep.get()) as u64,
        bytes: n.bytes.get() - a,
        peak: (n.peak.get() - l) as u64,
        left: n.live.get() - l,
        moved: n.moved.get() - m,
    });
    (c, r)
}

/// Whether this build counts.
pub const COUNTED: bool = cfg!(counted);

#[cfg(counted)]
mod counted {
    use super::NOW;
    use std::alloc::{GlobalAlloc, Layout, System};

    struct Counting;
    #[global_allocator]
    static A: Counting = Counting;

    fn got(n: usize) {
        let _ = NOW.try_with(|c| {
            c.bytes.set(c.bytes.get() + n as u64);
            let l = c.live.get() + n as i64;
            c.live.set(l);
            if l > c.peak.get() {
                c.peak.set(l);
            }
        });
    }
    fn gave(n: usize) {
        let _ = NOW.try_with(|c| c.live.set(c.live.get() - n as i64));
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            got(l.size());
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            gave(l.size());
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            gave(l.size());
            got(n);
            System.realloc(p, l, n)
        }
    }

    #[inline]
    fn moved(n: usize) {
        let _ = NOW.try_with(|c| c.moved.set(c.moved.get() + n as u64));
    }
    // In place of those of libc, for everything in this program.
    #[no_mangle]
    unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        moved(n);
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        moved(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        } else {
            std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _,
                inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
        d
    }
    #[no_mangle]
    unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        moved(n);
        std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
        d
    }
    #[inline(always)]
    unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i < n {
            let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
            if x != y {
                moved(i + 1);
                return i32::from(x) - i32::from(y);
            }
            i += 1;
        }
        moved(n);
        0
    }
    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        compare(a, b, n)
    }
    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        compare(a, b, n)
    }
}
