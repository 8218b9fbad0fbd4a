pub use derive_builder_real::*;
