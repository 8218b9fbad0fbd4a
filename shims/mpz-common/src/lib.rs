pub use mpz::common::*;
