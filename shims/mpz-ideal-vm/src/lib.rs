pub use mpz::ideal_vm::*;
