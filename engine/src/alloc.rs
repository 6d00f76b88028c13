//! Thread-local size-class allocator: the engine allocates and frees millions of small objects.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
const N: usize = 64 + 8; // 16-byte classes up to 1024, then powers of two up to 256 KiB
pub struct A;
thread_local! {
    static FREE: UnsafeCell<[*mut u8; N]> = const { UnsafeCell::new([std::ptr::null_mut(); N]) };
    static BUMP: UnsafeCell<(usize, usize)> = const { UnsafeCell::new((0, 0)) };
}
#[inline]
fn class(n: usize) -> Option<(usize, usize)> {
    if n <= 1024 {
        let c = (n.max(1) + 15) / 16;
        Some((c - 1, c * 16))
    } else if n <= 1 << 18 {
        let p = n.next_power_of_two();
        Some((64 + p.trailing_zeros() as usize - 11, p))
    } else {
        None
    }
}
unsafe impl GlobalAlloc for A {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let (c, sz) = match class(l.size()) {
            Some(x) => x,
            None => return System.alloc(l),
        };
        let r = FREE.try_with(|f| {
            let f = &mut *f.get();
            let p = f[c];
            if !p.is_null() {
                f[c] = *(p as *mut *mut u8);
            }
            p
        });
        match r {
            Ok(p) if !p.is_null() => p,
            _ => BUMP
                .try_with(|b| {
                    let b = &mut *b.get();
                    if b.0 + sz > b.1 {
                        let chunk = 1 << 20;
                        let p = System.alloc(Layout::from_size_align_unchecked(chunk, 16)) as usize;
                        if p == 0 {
                            return std::ptr::null_mut();
                        }
                        *b = (p, p + chunk);
                    }
                    let p = b.0;
                    b.0 += sz;
                    p as *mut u8
                })
                .unwrap_or(std::ptr::null_mut()),
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        match class(l.size()) {
            Some((c, _)) => {
                let _ = FREE.try_with(|f| {
                    let f = &mut *f.get();
                    *(p as *mut *mut u8) = f[c];
                    f[c] = p;
                });
            }
            None => System.dealloc(p, l),
        }
    }
}
#[global_allocator]
static G: A = A;
