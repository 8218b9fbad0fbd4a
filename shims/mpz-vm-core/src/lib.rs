pub use mpz::vm_core::*;
