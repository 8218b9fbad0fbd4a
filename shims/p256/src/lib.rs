ecdsa_shim::ecdsa_curve!(X9_62_PRIME256V1, false, false);
use openssl::{bn::*, ec::*, nid::Nid};
use std::{cell::RefCell, collections::VecDeque, fmt, ops::{Add, Mul}, sync::OnceLock};
fn ctx() -> BigNumContext { BigNumContext::new().unwrap() }
fn group() -> &'static EcGroup {
    static G: OnceLock<EcGroup> = OnceLock::new();
    G.get_or_init(|| EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap())
}
fn order() -> BigNum { let mut n = BigNum::new().unwrap(); group().order(&mut n, &mut ctx()).unwrap(); n }
pub mod elliptic_curve {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("crypto error") } }
    impl std::error::Error for Error {}
}
use elliptic_curve::Error;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FieldBytes([u8; 32]);
impl From<FieldBytes> for [u8; 32] { fn from(f: FieldBytes) -> Self { f.0 } }
impl std::ops::Deref for FieldBytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Scalar([u8; 32]);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct NonZeroScalar(Scalar);
impl AsRef<Scalar> for NonZeroScalar { fn as_ref(&self) -> &Scalar { &self.0 } }
/// Affine coordinates; `None` is the identity.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct AffinePoint(Option<([u8; 32], [u8; 32])>);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ProjectivePoint(AffinePoint);
impl AffinePoint {
    fn of(p: &EcPointRef) -> Self {
        if p.is_infinity(group()) { return Self(None) }
        let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
        p.affine_coordinates(group(), &mut x, &mut y, &mut ctx()).unwrap();
        let f = |v: BigNum| v.to_vec_padded(32).unwrap().try_into().unwrap();
        Self(Some((f(x), f(y))))
    }
    fn pt(&self) -> EcPoint {
        let mut p = EcPoint::new(group()).unwrap();
        match &self.0 {
            None => { let q = p.to_owned(group()).unwrap(); p.mul(group(), &q, &BigNum::from_u32(0).unwrap(), &ctx()).unwrap() }
            Some((x, y)) => p.set_affine_coordinates_gfp(group(), &BigNum::from_slice(x).unwrap(), &BigNum::from_slice(y).unwrap(), &mut ctx()).unwrap(),
        }
        p
    }
}
impl ProjectivePoint { pub fn to_affine(&self) -> AffinePoint { self.0 } }
impl Add for ProjectivePoint {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.0 .0.is_none() { return o }
        if o.0 .0.is_none() { return self }
        let mut r = EcPoint::new(group()).unwrap();
        r.add(group(), &self.0.pt(), &o.0.pt(), &mut ctx()).unwrap();
        Self(AffinePoint::of(&r))
    }
}
impl Mul<&Scalar> for ProjectivePoint {
    type Output = Self;
    fn mul(self, s: &Scalar) -> Self {
        if self.0 .0.is_none() { return self }
        let mut r = EcPoint::new(group()).unwrap();
        r.mul2(group(), &self.0.pt(), &BigNum::from_slice(&s.0).unwrap(), &mut ctx()).unwrap();
        Self(AffinePoint::of(&r))
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct PublicKey(AffinePoint);
impl PublicKey {
    pub fn from_affine(p: AffinePoint) -> Result<Self, Error> { if p.0.is_none() { Err(Error) } else { Ok(Self(p)) } }
    pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
        if !matches!((b.len(), b.first()), (33, Some(2 | 3)) | (65, Some(4))) { return Err(Error) }
        let r = EcPoint::from_bytes(group(), b, &mut ctx()).map_err(|_| Error).and_then(|p| {
            if p.is_on_curve(group(), &mut ctx()).unwrap_or(false) { Self::from_affine(AffinePoint::of(&p)) } else { Err(Error) }
        });
        let _ = openssl::error::ErrorStack::get();
        r
    }
    pub fn to_projective(&self) -> ProjectivePoint { ProjectivePoint(self.0) }
    pub fn as_affine(&self) -> &AffinePoint { &self.0 }
    pub fn from_secret_scalar(s: &NonZeroScalar) -> Self {
        let mut q = EcPoint::new(group()).unwrap();
        q.mul_generator2(group(), &BigNum::from_slice(&s.0 .0).unwrap(), &mut ctx()).unwrap();
        Self(AffinePoint::of(&q))
    }
}
impl serde::Serialize for PublicKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&EncodedPoint::from(*self).to_bytes()) }
}
impl<'de> serde::Deserialize<'de> for PublicKey {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b: Vec<u8> = <Vec<u8> as serde::Deserialize>::deserialize(d)?;
        Self::from_sec1_bytes(&b).map_err(|_| serde::de::Error::custom("invalid public key"))
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct EncodedPoint { x: FieldBytes, y: FieldBytes }
impl From<PublicKey> for EncodedPoint {
    fn from(p: PublicKey) -> Self { let (x, y) = p.0 .0.unwrap(); Self { x: FieldBytes(x), y: FieldBytes(y) } }
}
impl EncodedPoint {
    pub fn x(&self) -> Option<&FieldBytes> { Some(&self.x) }
    pub fn y(&self) -> Option<&FieldBytes> { Some(&self.y) }
    pub fn to_bytes(&self) -> Box<[u8]> { [&[4][..], &self.x, &self.y].concat().into() }
    pub fn as_bytes(&self) -> Vec<u8> { self.to_bytes().into() }
}
thread_local! {
    /// Secret scalars handed out by `SecretKey::random` before real randomness is used.
    pub static NEXT_SECRETS: RefCell<VecDeque<[u8; 32]>> = RefCell::new(VecDeque::new());
}
#[derive(Clone)]
pub struct SecretKey(NonZeroScalar);
impl fmt::Debug for SecretKey { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SecretKey") } }
impl SecretKey {
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        let a: [u8; 32] = b.try_into().map_err(|_| Error)?;
        let v = BigNum::from_slice(&a).unwrap();
        if v.num_bits() == 0 || v >= order() { return Err(Error) }
        Ok(Self(NonZeroScalar(Scalar(a))))
    }
    pub fn random(rng: &mut (impl rand_core::RngCore + rand_core::CryptoRng)) -> Self {
        if let Some(s) = NEXT_SECRETS.with(|n| n.borrow_mut().pop_front()) { return Self::from_slice(&s).expect("scalar") }
        loop {
            let mut b = [0; 32];
            rng.fill_bytes(&mut b);
            if let Ok(s) = Self::from_slice(&b) { return s }
        }
    }
    pub fn public_key(&self) -> PublicKey { PublicKey::from_secret_scalar(&self.0) }
    pub fn to_nonzero_scalar(&self) -> NonZeroScalar { self.0.clone() }
}
pub mod ecdh {
    pub struct SharedSecret([u8; 32]);
    impl SharedSecret { pub fn raw_secret_bytes(&self) -> &[u8; 32] { &self.0 } }
    pub fn diffie_hellman(s: &super::NonZeroScalar, p: &super::AffinePoint) -> SharedSecret {
        SharedSecret((super::ProjectivePoint(*p) * s.as_ref()).0 .0.unwrap().0)
    }
}
