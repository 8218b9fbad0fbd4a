pub use mpz::ot::*;
