use crate::{circuits::Circuit, memory_core::{binary::{Binary, U32, U8}, *}, vm_core::{Call, Vm, VmError}};
use std::sync::Arc;
#[derive(Debug, Default, Clone)]
struct Buf(Vec<Slice>);
impl Buf {
    fn push(&mut self, s: Slice) { if !s.is_empty() { self.0.push(s) } }
    fn bits(&self) -> usize { self.0.iter().map(|s| s.len()).sum() }
    fn take(&mut self, n: usize) -> Vec<Slice> {
        let (mut out, mut rest, mut left) = (vec![], vec![], n);
        for s in std::mem::take(&mut self.0) {
            let r = s.to_range();
            let k = left.min(s.len());
            if k > 0 { out.push(Slice::from_range_unchecked(r.start..r.start + k)); }
            if k < s.len() { rest.push(Slice::from_range_unchecked(r.start + k..r.end)); }
            left -= k;
        }
        assert_eq!(left, 0);
        self.0 = rest;
        out
    }
}
fn public(vm: &mut dyn Vm<Binary>, v: Vec<u8>) -> Result<Slice, VmError> {
    let r: Vector<U8> = vm.alloc_vec(v.len())?;
    vm.mark_public(r)?;
    vm.assign(r, v)?;
    vm.commit(r)?;
    Ok(r.to_raw())
}
fn run<R: crate::vm_core::CallReturn>(vm: &mut dyn Vm<Binary>, circ: Circuit, ins: Vec<Slice>) -> Result<R, VmError> {
    let mut b = Call::builder(Arc::new(circ));
    for s in ins { b = b.arg(s); }
    vm.call_raw(b.build().map_err(VmError::call)?).map(R::from_output)
}
macro_rules! err { ($n:ident) => {
    #[derive(Debug, thiserror::Error)]
    #[error(transparent)]
    pub struct $n(#[from] VmError);
} }
pub mod sha256 {
    use super::*;
    err!(Sha256Error);
    const IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    #[derive(Debug, Clone)]
    pub struct Sha256 { state: Array<U32, 8>, blocks: usize, buf: Buf }
    impl Sha256 {
        pub fn new_with_init(vm: &mut dyn Vm<Binary>) -> Result<Self, Sha256Error> {
            let state: Array<U32, 8> = vm.alloc()?;
            vm.mark_public(state)?;
            vm.assign(state, IV)?;
            vm.commit(state)?;
            Ok(Self::new_from_state(state, 0))
        }
        pub fn new_from_state(state: Array<U32, 8>, blocks: usize) -> Self { Self { state, blocks, buf: Buf::default() } }
        pub fn state(&self) -> Option<(Array<U32, 8>, usize)> { Some((self.state, self.blocks)) }
        pub fn update(&mut self, v: &Vector<U8>) { self.buf.push(v.to_raw()) }
        pub fn compress(&mut self, vm: &mut dyn Vm<Binary>) -> Result<(), Sha256Error> {
            while self.buf.bits() >= 512 {
                let mut ins = vec![self.state.to_raw()];
                ins.extend(self.buf.take(512));
                let circ = Circuit::native_bytes(32 + 64, 32, |b| {
                    let mut st: [u32; 8] = std::array::from_fn(|i| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()));
                    sha2::compress256(&mut st, &[*sha2::digest::generic_array::GenericArray::from_slice(&b[32..])]);
                    st.iter().flat_map(|w| w.to_le_bytes()).collect()
                });
                self.state = run(vm, circ, ins)?;
                self.blocks += 1;
            }
            Ok(())
        }
        pub fn finalize(mut self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, Sha256Error> {
            let len = self.blocks * 64 + self.buf.bits() / 8;
            let mut pad = vec![0x80u8];
            while (len + pad.len()) % 64 != 56 { pad.push(0); }
            pad.extend((len as u64 * 8).to_be_bytes());
            let p = public(vm, pad)?;
            self.buf.push(p);
            self.compress(vm)?;
            let circ = Circuit::native_bytes(32, 32, |b| b.chunks(4).flat_map(|c| [c[3], c[2], c[1], c[0]]).collect());
            Ok(run(vm, circ, vec![self.state.to_raw()])?)
        }
    }
}
pub mod blake3 {
    use super::*;
    err!(Blake3Error);
    #[derive(Debug, Clone)]
    pub struct Blake3(Buf);
    impl Blake3 {
        pub fn new(_: &mut dyn Vm<Binary>) -> Result<Self, Blake3Error> { Ok(Self(Buf::default())) }
        pub fn update(&mut self, _: &mut dyn Vm<Binary>, v: &Vector<U8>) -> Result<(), Blake3Error> { self.0.push(v.to_raw()); Ok(()) }
        pub fn finalize(self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, Blake3Error> {
            Ok(run(vm, Circuit::native_bytes(self.0.bits() / 8, 32, |b| ::blake3::hash(b).as_bytes().to_vec()), self.0.0)?)
        }
    }
}
pub mod keccak256 {
    use super::*;
    err!(Keccak256Error);
    #[derive(Debug, Clone)]
    pub struct Keccak256(Buf);
    impl Keccak256 {
        pub fn new_with_init(_: &mut dyn Vm<Binary>) -> Result<Self, Keccak256Error> { Ok(Self(Buf::default())) }
        pub fn update(&mut self, _: &mut dyn Vm<Binary>, v: &Vector<U8>) -> Result<(), Keccak256Error> { self.0.push(v.to_raw()); Ok(()) }
        pub fn finalize(self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, Keccak256Error> {
            Ok(run(vm, Circuit::native_bytes(self.0.bits() / 8, 32, |b| {
                use tiny_keccak::Hasher;
                let mut k = tiny_keccak::Keccak::v256();
                k.update(b);
                let mut o = [0; 32];
                k.finalize(&mut o);
                o.to_vec()
            }), self.0.0)?)
        }
    }
}
