pub use mpz::ole::*;
