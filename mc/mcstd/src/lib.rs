#![allow(dangerous_implicit_autorefs)]
//! A stand-in for `std` that is handed to the compiler (`--extern std=...`)
//! only when the crate under test is built (see /verif/mc/rustc-wrap.sh).
//! It re-exports the whole real `std`, and replaces the synchronisation
//! primitives by ones whose every operation is a scheduling point of the
//! controlled scheduler in `rt`.  Outside an exploration they behave like the
//! real ones, except that locking a lock that is already held panics (there is
//! only one thread then, so it is a certain self-deadlock).
pub use ::std::*;

pub mod rt;
pub mod sync;

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::rt::yield_now();
    }
}

pub mod prelude {
    pub use ::std::prelude::*;
    macro_rules! with { ($($e:ident)*) => { $(pub mod $e {
        pub use ::std::prelude::$e::*;
        pub use crate::sync::arc::WeakLook as _;
    })* } }
    with!(v1 rust_2015 rust_2018 rust_2021 rust_2024);
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::rt::yield_now();
    }
}
