ecdsa_shim::ecdsa_curve!(SECP256K1, true, true);
