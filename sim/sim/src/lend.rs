//! Where the texts and rows that library code is given lie: at the same addresses in every process
//! that runs the plan, whatever else that process has on its heap.
use simrt::{host, quiet, sut};

const TABLES: usize = 16 << 20;
const STACK: usize = 240 << 10;
const _: () = assert!(TABLES + STACK * simrt::MAXT <= simrt::LENT_SIZE);
static mut TABLES_AT: usize = 0;
static mut STACK_AT: [usize; simrt::MAXT] = [0; simrt::MAXT];

fn base() -> *mut u8 {
    simrt::LENT_BASE as *mut u8
}

/// Forgets what `keep` was given.
pub fn reset() {
    unsafe { TABLES_AT = 0 }
}
/// A copy for the rest of the round.
pub fn keep(b: &[u8]) -> &'static [u8] {
    unsafe {
        let at = TABLES_AT;
        let end = at + b.len().next_multiple_of(16) + 16;
        if end > TABLES {
            return Vec::leak(b.to_vec());
        }
        TABLES_AT = end;
        let p = base().add(at);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
        std::slice::from_raw_parts(p, b.len())
    }
}

/// Calls `f` with a copy that is gone afterwards: the next one lies in the same place.
pub fn lent<R>(b: &[u8], fill: u8, f: impl FnOnce(&[u8]) -> R) -> R {
    let me = simrt::me().unwrap();
    let at = unsafe { STACK_AT[me] };
    let end = at + b.len().next_multiple_of(16) + 16;
    if end > STACK {
        return f(&b.to_vec());
    }
    struct G(usize, usize, *mut u8, usize, u8);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe {
                STACK_AT[self.0] = self.1;
                std::ptr::write_bytes(self.2, self.4, self.3);
            }
        }
    }
    unsafe {
        let p = base().add(TABLES + STACK * me + at);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
        STACK_AT[me] = end;
        let _g = G(me, at, p, b.len(), fill);
        f(std::slice::from_raw_parts(p, b.len()))
    }
}
pub fn lent_str<R>(s: &str, f: impl FnOnce(&str) -> R) -> R {
    lent(s.as_bytes(), b'~', |b| f(unsafe { std::str::from_utf8_unchecked(b) }))
}

/// For library code to own and to free.
pub fn own<T>(f: impl FnOnce() -> T) -> T {
    host(|| quiet(|| sut(f)))
}
