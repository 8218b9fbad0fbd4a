//! Resolvable, unused.
