pub use mpz::vms::{Config as ProverConfig, Config as VerifierConfig, Prover, Verifier};
