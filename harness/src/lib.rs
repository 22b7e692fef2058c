//! Harnesses: one function per entry, each an ordinary Rust function over arbitrary inputs.
//!
//! The library is compiled to LLVM IR (together with everything it calls, /repo's crates
//! included) and executed symbolically; `replay.rs` compiles the same functions natively and runs
//! them on the inputs the executor found.
#![allow(clippy::all)]

include!("modules.rs");

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $f() {
                $m::$f()
            }
        )*
    };
}

include!("entries.rs");
