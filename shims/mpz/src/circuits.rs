use std::sync::{Arc, LazyLock};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Feed;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Node<T>(usize, T);
#[derive(Clone, Copy, Debug)]
enum Gate { Id(usize), Xor(usize, usize), And(usize, usize), Inv(usize) }
type Native = Arc<dyn Fn(&[bool]) -> Vec<bool> + Send + Sync>;
enum Body { Gates { wires: Vec<Option<Gate>>, inputs: Vec<usize>, outputs: Vec<usize> }, Native(Native) }
pub struct Circuit { n_in: usize, n_out: usize, body: Body }
impl std::fmt::Debug for Circuit { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Circuit({}->{})", self.n_in, self.n_out) } }
impl Circuit {
    pub fn native(n_in: usize, n_out: usize, f: impl Fn(&[bool]) -> Vec<bool> + Send + Sync + 'static) -> Self { Self { n_in, n_out, body: Body::Native(Arc::new(f)) } }
    pub fn native_bytes(n_in: usize, n_out: usize, f: impl Fn(&[u8]) -> Vec<u8> + Send + Sync + 'static) -> Self {
        Self::native(n_in * 8, n_out * 8, move |b| {
            let v = crate::core::bitvec::BitVec(b.to_vec()).to_bytes();
            crate::core::bitvec::BitVec::from_bytes(&f(&v)).0
        })
    }
    pub fn input_len(&self) -> usize { self.n_in }
    pub fn output_len(&self) -> usize { self.n_out }
    pub fn eval(&self, x: &[bool]) -> Vec<bool> {
        assert_eq!(x.len(), self.n_in);
        let out = match &self.body {
            Body::Native(f) => f(x),
            Body::Gates { wires, inputs, outputs } => {
                let mut v = vec![false; wires.len()];
                for (i, w) in inputs.iter().enumerate() { v[*w] = x[i]; }
                for (i, g) in wires.iter().enumerate() {
                    match g {
                        None => {}
                        Some(Gate::Id(a)) => v[i] = v[*a],
                        Some(Gate::Xor(a, b)) => v[i] = v[*a] ^ v[*b],
                        Some(Gate::And(a, b)) => v[i] = v[*a] & v[*b],
                        Some(Gate::Inv(a)) => v[i] = !v[*a],
                    }
                }
                outputs.iter().map(|o| v[*o]).collect()
            }
        };
        assert_eq!(out.len(), self.n_out);
        out
    }
}
#[derive(Debug, thiserror::Error)]
#[error("circuit error: {0}")]
pub struct CircuitError(&'static str);
#[derive(Default)]
pub struct CircuitBuilder { wires: Vec<Option<Gate>>, inputs: Vec<usize>, outputs: Vec<usize> }
impl CircuitBuilder {
    pub fn new() -> Self { Self::default() }
    fn push(&mut self, g: Option<Gate>) -> Node<Feed> { self.wires.push(g); Node(self.wires.len() - 1, Feed) }
    pub fn add_input(&mut self) -> Node<Feed> { let n = self.push(None); self.inputs.push(n.0); n }
    pub fn add_output(&mut self, n: Node<Feed>) { self.outputs.push(n.0) }
    pub fn add_id_gate(&mut self, a: Node<Feed>) -> Node<Feed> { self.push(Some(Gate::Id(a.0))) }
    pub fn add_xor_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> { self.push(Some(Gate::Xor(a.0, b.0))) }
    pub fn add_and_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> { self.push(Some(Gate::And(a.0, b.0))) }
    pub fn add_inv_gate(&mut self, a: Node<Feed>) -> Node<Feed> { self.push(Some(Gate::Inv(a.0))) }
    pub fn build(self) -> Result<Circuit, CircuitError> {
        if self.outputs.is_empty() { return Err(CircuitError("no outputs")); }
        Ok(Circuit { n_in: self.inputs.len(), n_out: self.outputs.len(), body: Body::Gates { wires: self.wires, inputs: self.inputs, outputs: self.outputs } })
    }
}
pub mod ops {
    use super::*;
    type N = Node<Feed>;
    fn add(b: &mut CircuitBuilder, x: &[N], y: &[N], mut c: Option<N>, inv_y: bool) -> (Vec<N>, N) {
        let mut out = vec![];
        for (&x, &y) in x.iter().zip(y) {
            let y = if inv_y { b.add_inv_gate(y) } else { y };
            let t = b.add_xor_gate(x, y);
            match c {
                None => { out.push(t); c = Some(b.add_and_gate(x, y)); }
                Some(k) => {
                    out.push(b.add_xor_gate(t, k));
                    let p = b.add_and_gate(t, k);
                    let q = b.add_and_gate(x, y);
                    c = Some(b.add_xor_gate(p, q));
                }
            }
        }
        (out, c.unwrap())
    }
    /// (a + b) mod m for a, b < m; little-endian bits.
    pub fn add_mod(b: &mut CircuitBuilder, x: &[N], y: &[N], m: &[N]) -> Vec<N> {
        let zero = b.add_xor_gate(x[0], x[0]);
        let one = b.add_inv_gate(zero);
        let (mut s, c) = add(b, x, y, None, false);
        s.push(c);
        let mut mm = m.to_vec();
        mm.push(zero);
        // s - m = s + !m + 1; carry out 1 means s >= m
        let (d, ge) = add(b, &s, &mm, Some(one), true);
        s.iter().zip(&d).take(x.len()).map(|(&s, &d)| {
            let t = b.add_xor_gate(s, d);
            let t = b.add_and_gate(t, ge);
            b.add_xor_gate(t, s)
        }).collect()
    }
}
pub mod circuits {
    use super::*;
    pub fn xor(n: usize) -> Circuit {
        Circuit::native(2 * n, n, move |b| (0..n).map(|i| b[i] ^ b[i + n]).collect())
    }
}
// ---- AES-128 (native, table free) ----
pub fn sbox(x: u8) -> u8 {
    static T: LazyLock<[u8; 256]> = LazyLock::new(|| {
        fn mul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 == 1 { r ^= a; } a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }; b >>= 1; } r }
        std::array::from_fn(|x| {
            let x = x as u8;
            let inv = if x == 0 { 0 } else { (0..254).fold(1u8, |a, _| mul(a, x)) };
            inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
        })
    });
    T[x as usize]
}
pub fn aes_ks(key: &[u8]) -> Vec<u8> {
    let mut w = key.to_vec();
    let mut rcon = 1u8;
    while w.len() < 176 {
        let mut t: [u8; 4] = w[w.len() - 4..].try_into().unwrap();
        if w.len() % 16 == 0 {
            t.rotate_left(1);
            t = t.map(sbox);
            t[0] ^= rcon;
            rcon = (rcon << 1) ^ if rcon & 0x80 != 0 { 0x1b } else { 0 };
        }
        let p: [u8; 4] = w[w.len() - 16..w.len() - 12].try_into().unwrap();
        for i in 0..4 { w.push(p[i] ^ t[i]); }
    }
    w
}
pub fn aes_block(ks: &[u8], block: &[u8]) -> Vec<u8> {
    let xt = |a: u8| (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
    let mut s: Vec<u8> = block.iter().zip(ks).map(|(a, b)| a ^ b).collect();
    for r in 1..=10 {
        let t: Vec<u8> = (0..16).map(|i| sbox(s[(i + 4 * (i % 4)) % 16])).collect();
        s = if r == 10 { t } else {
            (0..16).map(|i| {
                let c = i / 4 * 4;
                let a = |k: usize| t[c + (i + k) % 4];
                xt(a(0)) ^ xt(a(1)) ^ a(1) ^ a(2) ^ a(3)
            }).collect()
        };
        for i in 0..16 { s[i] ^= ks[r * 16 + i]; }
    }
    s
}
pub static AES128_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::native_bytes(16, 176, aes_ks)));
pub static AES128_POST_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::native_bytes(192, 16, |b| aes_block(&b[..176], &b[176..]))));
pub static AES128: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::native_bytes(32, 16, |b| aes_block(&aes_ks(&b[..16]), &b[16..]))));
#[test]
fn fips197() {
    let k: Vec<u8> = (0..16).collect();
    let p: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
    let h: String = aes_block(&aes_ks(&k), &p).iter().map(|b| format!("{b:02x}")).collect();
    assert_eq!(h, "69c4e0d86a7b0430d8cdb78070b4c55a");
}
