//! A stand-in for the standard library: everything is re-exported unchanged, except that the blocking and atomic
//! primitives of `sync` (and `thread::yield_now` / `spin_loop`) first ask a controlled scheduler who runs next.
//! The library under test is compiled from /repo/src with this crate linked under the name `std`.
#![no_std]
#[macro_use]
pub extern crate std as real_std;
pub use real_std::*;

pub mod sched;
pub mod sync;
pub mod hint {
    pub use crate::real_std::hint::*;
    pub fn spin_loop() {
        crate::sched::pause();
    }
}
pub mod thread {
    pub use crate::real_std::thread::*;
    pub fn yield_now() {
        crate::sched::pause();
    }
    pub fn sleep(_d: crate::real_std::time::Duration) {
        crate::sched::pause();
    }
}
