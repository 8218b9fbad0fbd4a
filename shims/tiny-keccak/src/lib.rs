//! Keccak-256 stand-in (FIPS-202 permutation, original padding).
const RC: [u64; 24] = [
    0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88,
    0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002,
    0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
];
const RHO: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
fn keccakf(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[y * 5 + x] ^= d;
            }
        }
        let mut last = a[1];
        for i in 0..24 {
            let t = a[PI[i]];
            a[PI[i]] = last.rotate_left(RHO[i]);
            last = t;
        }
        for y in 0..5 {
            let r = [a[y * 5], a[y * 5 + 1], a[y * 5 + 2], a[y * 5 + 3], a[y * 5 + 4]];
            for x in 0..5 {
                a[y * 5 + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}
pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}
#[derive(Clone)]
pub struct Keccak(Vec<u8>);
impl Keccak {
    pub fn v256() -> Self {
        Keccak(vec![])
    }
}
impl Hasher for Keccak {
    fn update(&mut self, i: &[u8]) {
        self.0.extend_from_slice(i)
    }
    fn finalize(self, out: &mut [u8]) {
        const RATE: usize = 136;
        let mut m = self.0;
        m.push(1);
        while m.len() % RATE != 0 {
            m.push(0);
        }
        let n = m.len();
        m[n - 1] |= 0x80;
        let mut a = [0u64; 25];
        for b in m.chunks(RATE) {
            for (i, w) in b.chunks(8).enumerate() {
                a[i] ^= u64::from_le_bytes(w.try_into().unwrap());
            }
            keccakf(&mut a);
        }
        let bytes: Vec<u8> = a.iter().flat_map(|w| w.to_le_bytes()).collect();
        let n = out.len();
        out.copy_from_slice(&bytes[..n]);
    }
}
#[test]
fn known() {
    let mut o = [0; 32];
    Keccak::v256().finalize(&mut o);
    assert_eq!(o[..4], [0xc5, 0xd2, 0x46, 0x01]);
}
