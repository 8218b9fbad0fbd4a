//! An independent (RFC 5246/8446 text) byte-level encoder used as the oracle side.
pub fn rec(typ: u8, ver: u16, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![typ, (ver >> 8) as u8, ver as u8, (payload.len() >> 8) as u8, payload.len() as u8];
    v.extend_from_slice(payload);
    v
}
pub fn hs(typ: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut v = vec![typ, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    v.extend_from_slice(body);
    v
}
pub fn u16b(v: u16) -> Vec<u8> {
    vec![(v >> 8) as u8, v as u8]
}
pub fn l8(b: &[u8]) -> Vec<u8> {
    let mut v = vec![b.len() as u8];
    v.extend_from_slice(b);
    v
}
pub fn l16(b: &[u8]) -> Vec<u8> {
    let mut v = u16b(b.len() as u16);
    v.extend_from_slice(b);
    v
}
pub fn l24(b: &[u8]) -> Vec<u8> {
    let mut v = vec![(b.len() >> 16) as u8, (b.len() >> 8) as u8, b.len() as u8];
    v.extend_from_slice(b);
    v
}
pub fn cat(p: &[&[u8]]) -> Vec<u8> {
    p.concat()
}
