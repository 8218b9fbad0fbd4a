//! Stand-in for `spki`: SubjectPublicKeyInfo on top of the real `der` crate.
pub use der;
use der::{asn1::{AnyRef, BitStringRef}, oid::ObjectIdentifier, Decode, DecodeValue, Header, Reader};

#[derive(Clone, Debug)]
pub struct AlgorithmIdentifierRef<'a> {
    pub oid: ObjectIdentifier,
    pub parameters: Option<AnyRef<'a>>,
}
impl<'a> DecodeValue<'a> for AlgorithmIdentifierRef<'a> {
    type Error = der::Error;
    fn decode_value<R: Reader<'a>>(r: &mut R, _h: Header) -> der::Result<Self> {
        Ok(Self { oid: r.decode()?, parameters: Option::<AnyRef<'a>>::decode(r)? })
    }
}
impl der::FixedTag for AlgorithmIdentifierRef<'_> {
    const TAG: der::Tag = der::Tag::Sequence;
}
#[derive(Clone, Debug)]
pub struct SubjectPublicKeyInfoRef<'a> {
    pub algorithm: AlgorithmIdentifierRef<'a>,
    pub subject_public_key: BitStringRef<'a>,
}
impl<'a> DecodeValue<'a> for SubjectPublicKeyInfoRef<'a> {
    type Error = der::Error;
    fn decode_value<R: Reader<'a>>(r: &mut R, _h: Header) -> der::Result<Self> {
        Ok(Self { algorithm: r.decode()?, subject_public_key: r.decode()? })
    }
}
impl der::FixedTag for SubjectPublicKeyInfoRef<'_> {
    const TAG: der::Tag = der::Tag::Sequence;
}
