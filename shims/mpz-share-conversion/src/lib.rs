pub use mpz::share_conversion::*;
