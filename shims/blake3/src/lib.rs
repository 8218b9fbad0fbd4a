//! BLAKE3 stand-in written after the reference algorithm (unkeyed hash mode).
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const P: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const START: u32 = 1;
const END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;
fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}
fn compress(cv: &[u32; 8], block: &[u8], counter: u64, flags: u32) -> [u32; 8] {
    let mut b = [0u8; 64];
    b[..block.len()].copy_from_slice(block);
    let mut m = [0u32; 16];
    for (i, w) in b.chunks(4).enumerate() {
        m[i] = u32::from_le_bytes(w.try_into().unwrap());
    }
    let mut s = [0u32; 16];
    s[..8].copy_from_slice(cv);
    s[8..12].copy_from_slice(&IV[..4]);
    s[12] = counter as u32;
    s[13] = (counter >> 32) as u32;
    s[14] = block.len() as u32;
    s[15] = flags;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]);
        g(&mut s, 1, 5, 9, 13, m[2], m[3]);
        g(&mut s, 2, 6, 10, 14, m[4], m[5]);
        g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]);
        g(&mut s, 1, 6, 11, 12, m[10], m[11]);
        g(&mut s, 2, 7, 8, 13, m[12], m[13]);
        g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 {
            let o = m;
            for i in 0..16 {
                m[i] = o[P[i]];
            }
        }
    }
    let mut out = [0; 8];
    for i in 0..8 {
        out[i] = s[i] ^ s[i + 8];
    }
    out
}
fn chunk(c: &[u8], counter: u64, root: bool) -> [u32; 8] {
    let mut cv = IV;
    let blocks: Vec<&[u8]> = if c.is_empty() { vec![&[][..]] } else { c.chunks(64).collect() };
    let n = blocks.len();
    for (i, b) in blocks.into_iter().enumerate() {
        let mut f = 0;
        if i == 0 {
            f |= START;
        }
        if i + 1 == n {
            f |= END | if root { ROOT } else { 0 };
        }
        cv = compress(&cv, b, counter, f);
    }
    cv
}
fn tree(d: &[u8], counter: u64, root: bool) -> [u32; 8] {
    if d.len() <= 1024 {
        return chunk(d, counter, root);
    }
    let chunks = (d.len() - 1) / 1024;
    let left = 1usize << (usize::BITS - 1 - chunks.leading_zeros());
    let l = tree(&d[..left * 1024], counter, false);
    let r = tree(&d[left * 1024..], counter + left as u64, false);
    let mut b = [0u8; 64];
    for (i, w) in l.iter().chain(r.iter()).enumerate() {
        b[i * 4..i * 4 + 4].copy_from_slice(&w.to_le_bytes());
    }
    compress(&IV, &b, 0, PARENT | if root { ROOT } else { 0 })
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> [u8; 32] {
        h.0
    }
}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
pub fn hash(d: &[u8]) -> Hash {
    let w = tree(d, 0, true);
    let mut o = [0; 32];
    for i in 0..8 {
        o[i * 4..i * 4 + 4].copy_from_slice(&w[i].to_le_bytes());
    }
    Hash(o)
}
#[derive(Clone, Default, Debug)]
pub struct Hasher(Vec<u8>);
impl Hasher {
    pub fn new() -> Self {
        Hasher(vec![])
    }
    pub fn update(&mut self, d: &[u8]) -> &mut Self {
        self.0.extend_from_slice(d);
        self
    }
    pub fn finalize(&self) -> Hash {
        hash(&self.0)
    }
}
#[test]
fn known() {
    assert_eq!(hash(b"").0[..4], [0xaf, 0x13, 0x49, 0xb9]);
}
