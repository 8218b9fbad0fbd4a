pub use mpz::hash::*;
