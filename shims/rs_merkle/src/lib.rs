//! Stand-in for tlsnotary's fork of rs-merkle: same tree shape (odd nodes are promoted),
//! same proof order, total on malformed proofs.
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;

pub trait Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>> {
    const SIZE: usize;
}
pub trait Hasher: Clone {
    type Hash: Hash;
    fn hash(&self, data: &[u8]) -> Self::Hash;
    fn concat_and_hash(&self, l: &Self::Hash, r: Option<&Self::Hash>) -> Self::Hash {
        match r {
            Some(r) => {
                let mut c: Vec<u8> = (*l).into();
                c.append(&mut (*r).into());
                self.hash(&c)
            }
            None => *l,
        }
    }
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "H: Serialize", deserialize = "H: Deserialize<'de>"))]
pub struct MerkleTree<H> {
    layers: Vec<Vec<H>>,
    uncommitted: Vec<H>,
    #[serde(skip)]
    _p: PhantomData<H>,
}
impl<H> Default for MerkleTree<H> {
    fn default() -> Self {
        MerkleTree { layers: vec![], uncommitted: vec![], _p: PhantomData }
    }
}
impl<H: Hash> MerkleTree<H> {
    pub fn append(&mut self, leaves: &mut Vec<H>) -> &mut Self {
        self.uncommitted.append(leaves);
        self
    }
    pub fn commit<S: Hasher<Hash = H>>(&mut self, h: &S) {
        let mut leaves = self.layers.first().cloned().unwrap_or_default();
        leaves.append(&mut self.uncommitted);
        self.layers = vec![leaves];
        while self.layers.last().unwrap().len() > 1 {
            let next = self.layers.last().unwrap().chunks(2).map(|c| h.concat_and_hash(&c[0], c.get(1))).collect();
            self.layers.push(next);
        }
    }
    pub fn root(&self) -> Option<H> {
        self.layers.last().and_then(|l| l.first()).copied()
    }
    pub fn leaves_len(&self) -> usize {
        self.layers.first().map_or(0, |l| l.len())
    }
    pub fn proof(&self, idx: &[usize]) -> MerkleProof<H> {
        let mut hashes = vec![];
        let mut cur = idx.to_vec();
        for layer in &self.layers {
            if layer.len() <= 1 {
                break;
            }
            for i in siblings(&cur) {
                if let Some(h) = layer.get(i) {
                    hashes.push(*h);
                }
            }
            cur = parents(&cur);
        }
        MerkleProof { proof_hashes: hashes }
    }
}
fn siblings(idx: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = idx.iter().map(|i| i ^ 1).filter(|i| !idx.contains(i)).collect();
    v.sort();
    v.dedup();
    v
}
fn parents(idx: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = idx.iter().map(|i| i / 2).collect();
    v.dedup();
    v
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "H: Serialize", deserialize = "H: Deserialize<'de>"))]
pub struct MerkleProof<H> {
    proof_hashes: Vec<H>,
}
impl<H: Hash> MerkleProof<H> {
    pub fn verify<S: Hasher<Hash = H>>(&self, h: &S, root: H, idx: &[usize], leaves: &[H], count: usize) -> bool {
        self.compute(h, idx, leaves, count) == Some(root)
    }
    fn compute<S: Hasher<Hash = H>>(&self, h: &S, idx: &[usize], leaves: &[H], count: usize) -> Option<H> {
        if idx.len() != leaves.len() || idx.is_empty() || idx.iter().any(|i| *i >= count) {
            return None;
        }
        let mut cur: Vec<(usize, H)> = idx.iter().copied().zip(leaves.iter().copied()).collect();
        let mut n = count;
        let mut proof = self.proof_hashes.iter();
        while n > 1 {
            let ids: Vec<usize> = cur.iter().map(|c| c.0).collect();
            for s in siblings(&ids) {
                if s < n {
                    cur.push((s, *proof.next()?));
                }
            }
            cur.sort_by_key(|c| c.0);
            let mut next = vec![];
            let mut i = 0;
            while i < cur.len() {
                let (id, l) = cur[i];
                if id % 2 == 0 && i + 1 < cur.len() && cur[i + 1].0 == id + 1 {
                    next.push((id / 2, h.concat_and_hash(&l, Some(&cur[i + 1].1))));
                    i += 2;
                } else {
                    next.push((id / 2, l));
                    i += 1;
                }
            }
            cur = next;
            n = n.div_ceil(2);
        }
        if proof.next().is_some() {
            return None;
        }
        Some(cur.first()?.1)
    }
}
