pub use mpz::fields::*;
