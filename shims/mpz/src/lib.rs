//! Ideal-functionality stand-ins for the `mpz` crates.  One trusted implementation:
//! values are bits in a flat memory, calls are evaluated by each party after private
//! inputs have been exchanged, share conversions are dealt by the sender.
pub mod circuits;
pub mod common;
pub mod core;
pub mod fields;
pub mod garble_core;
pub mod hash;
pub mod ideal_vm;
pub mod memory_core;
pub mod ole;
pub mod ot;
pub mod share_conversion;
pub mod vm_core;
pub mod vms;
