pub use mpz::circuits::*;
