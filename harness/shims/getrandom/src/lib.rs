//! Deterministic stand-in for `getrandom` 0.2, patched into the harness only.
//!
//! Every source of entropy that /repo uses (`OsRng`, `thread_rng`, ahash's
//! keys) ends in this crate, so that a harness case is a pure function of the
//! code under test and of the seed given to `det::seed`.
use std::cell::RefCell;
use std::fmt;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const UNSUPPORTED: Error = Error(NonZeroU32::new(1 << 31).unwrap());
    pub fn raw_os_error(self) -> Option<i32> {
        if self.0.get() < Self::INTERNAL_START { Some(self.0.get() as i32) } else { None }
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "getrandom stand-in error {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    det::fill(dest)
}

/// Control of the stand-in, per thread.
pub mod det {
    use super::*;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

    struct State {
        seeded: bool,
        x: u64,
        script: Vec<u8>,
        pos: usize,
        fail: bool,
        fail_after: u64,
        bytes: u64,
        calls: u64,
        buf: [u8; 8],
        left: usize,
    }
    static NEXT: AtomicU64 = AtomicU64::new(1);
    static HELPER_BYTES: AtomicU64 = AtomicU64::new(0);
    static HELPERS_FAIL: AtomicBool = AtomicBool::new(false);
    thread_local! {
        static ST: RefCell<State> = RefCell::new(fresh(
            // a thread the harness did not seed (a pool thread, say) gets a
            // stream of its own
            mix(NEXT.fetch_add(1, Ordering::Relaxed) ^ 0x5eed_5eed_5eed_5eed)));
    }
    fn fresh(x: u64) -> State {
        State { seeded: false, x, script: Vec::new(), pos: 0, fail: false, fail_after: u64::MAX, bytes: 0, calls: 0, buf: [0; 8], left: 0 }
    }
    fn mix(mut z: u64) -> u64 {
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn next(s: &mut State) -> u64 {
        s.x = s.x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(mix(s.x) ^ 0xd1b5_4a32_d192_ed03)
    }
    /// Restart this thread's stream.
    pub fn seed(seed: u64) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            *s = fresh(mix(seed ^ 0xa076_1d64_78bd_642f));
            s.seeded = true;
        });
    }
    /// Serve these bytes first, then go on with the seeded stream.
    pub fn script(bytes: Vec<u8>) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.script = bytes;
            s.pos = 0;
        });
    }
    /// Make every request fail (true) or succeed again (false).
    pub fn fail(on: bool) {
        ST.with(|s| s.borrow_mut().fail = on);
    }
    /// The same for all threads that were never seeded (which the code under
    /// test may have started).
    pub fn fail_helpers(on: bool) {
        HELPERS_FAIL.store(on, Ordering::SeqCst);
    }
    /// Bytes served to such threads so far.
    pub fn helper_bytes() -> u64 {
        HELPER_BYTES.load(Ordering::SeqCst)
    }
    /// Serve this many more bytes, then fail every request.
    pub fn fail_after(bytes: u64) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.fail_after = s.bytes.saturating_add(bytes);
        });
    }
    /// Bytes served to this thread since `seed`.
    pub fn bytes() -> u64 {
        ST.with(|s| s.borrow().bytes)
    }
    /// Requests made by this thread since `seed`, failed ones included.
    pub fn calls() -> u64 {
        ST.with(|s| s.borrow().calls)
    }
    pub(crate) fn fill(dest: &mut [u8]) -> Result<(), Error> {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.calls += 1;
            if s.fail || s.bytes.saturating_add(dest.len() as u64) > s.fail_after {
                return Err(Error::UNSUPPORTED);
            }
            if !s.seeded {
                if HELPERS_FAIL.load(Ordering::SeqCst) {
                    return Err(Error::UNSUPPORTED);
                }
                HELPER_BYTES.fetch_add(dest.len() as u64, Ordering::SeqCst);
            }
            s.bytes += dest.len() as u64;
            for b in dest.iter_mut() {
                if s.pos < s.script.len() {
                    *b = s.script[s.pos];
                    s.pos += 1;
                } else {
                    if s.left == 0 {
                        let v = next(&mut s);
                        s.buf = v.to_le_bytes();
                        s.left = 8;
                    }
                    *b = s.buf[8 - s.left];
                    s.left -= 1;
                }
            }
            Ok(())
        })
    }
}
