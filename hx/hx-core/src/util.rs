use rangeset::set::RangeSet;
/// Index set of the bits of `m`.
pub fn set(m: u32) -> RangeSet<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < 32 {
        if m >> i & 1 == 1 {
            let s = i;
            while i < 32 && m >> i & 1 == 1 {
                i += 1;
            }
            v.push(s..i);
        } else {
            i += 1;
        }
    }
    RangeSet::from(v)
}
/// Bits of an index set (indices must be < 32).
pub fn bits_of(r: &RangeSet<usize>) -> u32 {
    let mut m = 0;
    for x in r.iter() {
        for i in x {
            m |= 1 << i;
        }
    }
    m
}
pub fn full(n: usize) -> u32 {
    ((1u64 << n) - 1) as u32
}
