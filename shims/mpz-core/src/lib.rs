pub use mpz::core::*;
