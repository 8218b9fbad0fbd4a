pub mod protocol { pub mod semihonest { pub use mpz::vms::{Evaluator, Garbler}; } }
