//! ECDSA on OpenSSL with the API surface of the `ecdsa` crates.
pub use signature;
#[doc(hidden)]
pub use openssl;
#[doc(hidden)]
pub use sha2;
#[macro_export]
macro_rules! ecdsa_curve {
    ($nid:ident, $compress:expr, $low_s:expr) => {
        pub mod ecdsa {
            pub use $crate::signature;
            use signature::hazmat::PrehashVerifier;
            use $crate::openssl::{bn::*, ec::*, ecdsa::EcdsaSig, nid::Nid, pkey::*};
            use $crate::sha2::Digest;

            pub type Error = signature::Error;
            fn ctx() -> BigNumContext {
                BigNumContext::new().unwrap()
            }
            fn group() -> &'static EcGroup {
                static G: std::sync::OnceLock<EcGroup> = std::sync::OnceLock::new();
                G.get_or_init(|| EcGroup::from_curve_name(Nid::$nid).unwrap())
            }
            fn order() -> BigNum {
                let mut n = BigNum::new().unwrap();
                group().order(&mut n, &mut ctx()).unwrap();
                n
            }
            fn in_range(b: &[u8]) -> bool {
                let v = BigNum::from_slice(b).unwrap();
                v.num_bits() > 0 && v < order()
            }
            fn high(s: &[u8]) -> bool {
                let mut h = BigNum::new().unwrap();
                h.rshift1(&order()).unwrap();
                BigNum::from_slice(s).unwrap() > h
            }
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct Signature([u8; 64]);
            impl Signature {
                pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
                    let a: [u8; 64] = b.try_into().map_err(|_| Error::new())?;
                    if !in_range(&a[..32]) || !in_range(&a[32..]) {
                        return Err(Error::new());
                    }
                    Ok(Self(a))
                }
                pub fn to_vec(&self) -> Vec<u8> {
                    self.0.to_vec()
                }
                pub fn to_bytes(&self) -> [u8; 64] {
                    self.0
                }
            }
            impl TryFrom<&[u8]> for Signature {
                type Error = Error;
                fn try_from(b: &[u8]) -> Result<Self, Error> {
                    Self::from_slice(b)
                }
            }
            #[derive(Clone, Copy, Debug)]
            pub struct RecoveryId(u8);
            impl RecoveryId {
                pub fn to_byte(self) -> u8 {
                    self.0
                }
            }
            #[derive(Clone)]
            pub struct VerifyingKey(EcKey<Public>);
            impl VerifyingKey {
                pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
                    let ok = matches!((b.len(), b.first()), (33, Some(2 | 3)) | (65, Some(4)));
                    if !ok {
                        return Err(Error::new());
                    }
                    let r = EcPoint::from_bytes(group(), b, &mut ctx()).and_then(|p| EcKey::from_public_key(group(), &p)).and_then(|k| k.check_key().map(|_| k));
                    let r = r.map(Self).map_err(|_| Error::new());
                    let _ = $crate::openssl::error::ErrorStack::get();
                    r
                }
                pub fn to_sec1_bytes(&self) -> Box<[u8]> {
                    let form = if $compress { PointConversionForm::COMPRESSED } else { PointConversionForm::UNCOMPRESSED };
                    self.0.public_key().to_bytes(group(), form, &mut ctx()).unwrap().into()
                }
            }
            impl PrehashVerifier<Signature> for VerifyingKey {
                fn verify_prehash(&self, h: &[u8], s: &Signature) -> Result<(), Error> {
                    if $low_s && high(&s.0[32..]) {
                        return Err(Error::new());
                    }
                    let sig = EcdsaSig::from_private_components(BigNum::from_slice(&s.0[..32]).unwrap(), BigNum::from_slice(&s.0[32..]).unwrap()).unwrap();
                    let r = sig.verify(h, &self.0);
                    let _ = $crate::openssl::error::ErrorStack::get();
                    match r {
                        Ok(true) => Ok(()),
                        _ => Err(Error::new()),
                    }
                }
            }
            impl signature::Verifier<Signature> for VerifyingKey {
                fn verify(&self, m: &[u8], s: &Signature) -> Result<(), Error> {
                    self.verify_prehash(&$crate::sha2::Sha256::digest(m), s)
                }
            }
            pub struct SigningKey(EcKey<Private>, VerifyingKey);
            impl SigningKey {
                pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
                    if b.len() != 32 || !in_range(b) {
                        return Err(Error::new());
                    }
                    let d = BigNum::from_slice(b).unwrap();
                    let mut q = EcPoint::new(group()).unwrap();
                    q.mul_generator2(group(), &d, &mut ctx()).unwrap();
                    let k = EcKey::from_private_components(group(), &d, &q).unwrap();
                    Ok(Self(k, VerifyingKey(EcKey::from_public_key(group(), &q).unwrap())))
                }
                pub fn verifying_key(&self) -> &VerifyingKey {
                    &self.1
                }
                pub fn sign_prehash_recoverable(&self, h: &[u8]) -> Result<(Signature, RecoveryId), Error> {
                    let sig = EcdsaSig::sign(h, &self.0).map_err(|_| Error::new())?;
                    let mut out = [0u8; 64];
                    out[..32].copy_from_slice(&sig.r().to_vec_padded(32).unwrap());
                    let mut s = sig.s().to_owned().unwrap();
                    if high(&s.to_vec()) && $low_s {
                        let mut t = BigNum::new().unwrap();
                        t.checked_sub(&order(), &s).unwrap();
                        s = t;
                    }
                    out[32..].copy_from_slice(&s.to_vec_padded(32).unwrap());
                    // R = (h/s) G + (r/s) Q; its y parity is the recovery id
                    let (mut c, n) = (ctx(), order());
                    let mut w = BigNum::new().unwrap();
                    w.mod_inverse(&s, &n, &mut c).unwrap();
                    let (mut u1, mut u2) = (BigNum::new().unwrap(), BigNum::new().unwrap());
                    u1.mod_mul(&BigNum::from_slice(&h[..h.len().min(32)]).unwrap(), &w, &n, &mut c).unwrap();
                    u2.mod_mul(sig.r(), &w, &n, &mut c).unwrap();
                    let mut a = EcPoint::new(group()).unwrap();
                    a.mul_full(group(), &u1, self.0.public_key(), &u2, &mut c).unwrap();
                    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
                    a.affine_coordinates(group(), &mut x, &mut y, &mut c).unwrap();
                    Ok((Signature(out), RecoveryId(y.is_bit_set(0) as u8 | ((x >= n) as u8) << 1)))
                }
            }
            impl signature::Signer<Signature> for SigningKey {
                fn try_sign(&self, m: &[u8]) -> Result<Signature, Error> {
                    Ok(self.sign_prehash_recoverable(&$crate::sha2::Sha256::digest(m))?.0)
                }
            }
        }
    };
}
