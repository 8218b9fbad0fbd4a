pub use mpz::memory_core::*;
