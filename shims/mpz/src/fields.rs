use openssl::bn::{BigNum, BigNumContext};
use serde::{Deserialize, Serialize};
use std::ops::{Add, Mul, Neg, Sub};
pub trait Field: Copy + Clone + std::fmt::Debug + PartialEq + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + Send + Sync + 'static + Serialize + serde::de::DeserializeOwned {
    fn zero() -> Self;
    fn one() -> Self;
    fn inverse(self) -> Option<Self>;
    fn to_be_bytes(&self) -> Vec<u8>;
    fn to_le_bytes(&self) -> Vec<u8> { let mut v = self.to_be_bytes(); v.reverse(); v }
    fn random_nonzero() -> Self;
}
pub trait UniformRand: Sized { fn rand<R: rand::Rng + ?Sized>(rng: &mut R) -> Self; }
pub mod p256 {
    use super::*;
    /// Element of the P-256 base field, big-endian.
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
    pub struct P256([u8; 32]);
    const P: &str = "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF";
    thread_local!(static CTX: (BigNum, std::cell::RefCell<BigNumContext>) = (BigNum::from_hex_str(P).unwrap(), BigNumContext::new().unwrap().into()));
    fn op(f: impl FnOnce(&BigNum, &mut BigNumContext, &mut BigNum)) -> P256 {
        CTX.with(|(p, c)| {
            let mut r = BigNum::new().unwrap();
            f(p, &mut c.borrow_mut(), &mut r);
            P256(r.to_vec_padded(32).unwrap().try_into().unwrap())
        })
    }
    fn bn(a: P256) -> BigNum { BigNum::from_slice(&a.0).unwrap() }
    impl Add for P256 { type Output = Self; fn add(self, o: Self) -> Self { op(|p, c, r| r.mod_add(&bn(self), &bn(o), p, c).unwrap()) } }
    impl Sub for P256 { type Output = Self; fn sub(self, o: Self) -> Self { op(|p, c, r| r.mod_sub(&bn(self), &bn(o), p, c).unwrap()) } }
    impl Mul for P256 { type Output = Self; fn mul(self, o: Self) -> Self { op(|p, c, r| r.mod_mul(&bn(self), &bn(o), p, c).unwrap()) } }
    impl Neg for P256 { type Output = Self; fn neg(self) -> Self { Self::zero() - self } }
    impl P256 {
        pub fn from_be(b: &[u8]) -> Self { let a = BigNum::from_slice(b).unwrap(); op(|p, c, r| r.nnmod(&a, p, c).unwrap()) }
    }
    #[derive(Debug)]
    pub struct NotInField;
    /// Little-endian.
    impl TryFrom<[u8; 32]> for P256 {
        type Error = NotInField;
        fn try_from(mut b: [u8; 32]) -> Result<Self, NotInField> {
            b.reverse();
            if BigNum::from_slice(&b).unwrap() >= BigNum::from_hex_str(P).unwrap() { return Err(NotInField); }
            Ok(Self(b))
        }
    }
    impl Field for P256 {
        fn zero() -> Self { Self([0; 32]) }
        fn one() -> Self { let mut a = [0; 32]; a[31] = 1; Self(a) }
        fn inverse(self) -> Option<Self> {
            if self == Self::zero() { return None; }
            Some(op(|p, c, r| r.mod_inverse(&bn(self), p, c).unwrap()))
        }
        fn to_be_bytes(&self) -> Vec<u8> { self.0.to_vec() }
        fn random_nonzero() -> Self { loop { let b: [u8; 32] = rand::random(); let x = Self::from_be(&b); if x != Self::zero() { return x; } } }
    }
    impl UniformRand for P256 { fn rand<R: rand::Rng + ?Sized>(r: &mut R) -> Self { let mut b = [0; 32]; r.fill_bytes(&mut b); Self::from_be(&b) } }
}
pub mod gf2_128 {
    use super::*;
    use crate::core::Block;
    /// x^128 + x^7 + x^2 + x + 1, bit i of the integer is the coefficient of x^i.
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
    pub struct Gf2_128(u128);
    impl Gf2_128 {
        pub fn new(x: u128) -> Self { Self(x) }
        pub fn to_inner(self) -> u128 { self.0 }
    }
    impl Add for Gf2_128 { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0 ^ o.0) } }
    impl Sub for Gf2_128 { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 ^ o.0) } }
    impl Neg for Gf2_128 { type Output = Self; fn neg(self) -> Self { self } }
    impl Mul for Gf2_128 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            let (mut a, mut b, mut r) = (self.0, o.0, 0u128);
            while b != 0 {
                if b & 1 == 1 { r ^= a; }
                a = (a << 1) ^ if a >> 127 == 1 { 0x87 } else { 0 };
                b >>= 1;
            }
            Self(r)
        }
    }
    impl Field for Gf2_128 {
        fn zero() -> Self { Self(0) }
        fn one() -> Self { Self(1) }
        fn inverse(self) -> Option<Self> {
            if self.0 == 0 { return None; }
            // x^(2^128 - 2)
            let (mut r, mut s) = (Self(1), self);
            for _ in 1..128 { s = s * s; r = r * s; }
            Some(r)
        }
        fn to_be_bytes(&self) -> Vec<u8> { self.0.to_be_bytes().to_vec() }
        fn random_nonzero() -> Self { loop { let x = rand::random::<u128>(); if x != 0 { return Self(x); } } }
    }
    impl UniformRand for Gf2_128 { fn rand<R: rand::Rng + ?Sized>(r: &mut R) -> Self { let mut b = [0; 16]; r.fill_bytes(&mut b); Self(u128::from_le_bytes(b)) } }
    impl From<Block> for Gf2_128 { fn from(b: Block) -> Self { Self(u128::from_le_bytes(b.to_bytes())) } }
    impl From<Gf2_128> for Block { fn from(x: Gf2_128) -> Self { Block::new(x.0.to_le_bytes()) } }
}
