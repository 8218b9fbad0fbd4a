pub use mpz::garble_core::*;
