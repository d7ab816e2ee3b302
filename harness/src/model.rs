//! Reference model: layers are sets of triples over vocabulary indices.
use crate::terms::{O, T};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Arc;

pub type K = (u32, u32, O);
pub type Set = BTreeSet<K>;

/// One builder call.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    /// add a triple (by id if the flag is set and every term is known to the parent)
    Add(T, bool),
    /// remove a triple
    Rem(T, bool),
    /// add the n-th existing triple of the parent
    AddEx(u32, bool),
    /// remove the n-th existing triple of the parent
    RemEx(u32, bool),
}

/// A compact description of many builder calls, expanded deterministically.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Bulk {
    pub n: u32,
    pub seed: u32,
    /// out of 16: how many of the calls are removals of existing triples
    pub rem: u8,
    pub shape: u8,
}

fn lcg(x: &mut u64) -> u32 {
    *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    (*x >> 33) as u32
}

impl Bulk {
    pub fn expand(&self) -> Vec<B> {
        let mut x = self.seed as u64 * 2 + 1;
        let mut out = Vec::with_capacity(self.n as usize);
        for i in 0..self.n {
            let r = lcg(&mut x);
            if (r % 16) < self.rem as u32 {
                out.push(B::RemEx(lcg(&mut x), lcg(&mut x) % 3 == 0));
                continue;
            }
            let (s, p, o) = match self.shape % 5 {
                0 => (lcg(&mut x), lcg(&mut x), lcg(&mut x)),
                // one hot subject
                1 => (lcg(&mut x) % 2, lcg(&mut x), lcg(&mut x)),
                // one hot object
                2 => (lcg(&mut x), lcg(&mut x), lcg(&mut x) % 2),
                // sequential
                3 => (i, i / 7, i / 2),
                // one predicate
                _ => (lcg(&mut x), 0, lcg(&mut x)),
            };
            out.push(B::Add(T { s, p, o, v: lcg(&mut x) % 2 == 0 }, false));
        }
        out
    }
}

#[derive(Clone, Debug, Default)]
pub struct Dict {
    pub nodes: BTreeSet<u32>,
    pub preds: BTreeSet<u32>,
    pub values: BTreeSet<u32>,
}

impl Dict {
    pub fn absorb(&mut self, k: &K) {
        self.nodes.insert(k.0);
        self.preds.insert(k.1);
        match k.2 {
            O::N(n) => {
                self.nodes.insert(n);
            }
            O::V(v) => {
                self.values.insert(v);
            }
        }
    }
    pub fn of(set: &Set) -> Dict {
        let mut d = Dict::default();
        for k in set {
            d.absorb(k);
        }
        d
    }
    pub fn knows(&self, k: &K) -> bool {
        self.nodes.contains(&k.0)
            && self.preds.contains(&k.1)
            && match k.2 {
                O::N(n) => self.nodes.contains(&n),
                O::V(v) => self.values.contains(&v),
            }
    }
}

#[derive(Clone, Debug)]
pub struct Layer {
    pub parent: Option<usize>,
    pub set: Arc<Set>,
    pub adds: Arc<Set>,
    pub rems: Arc<Set>,
    pub dict: Arc<Dict>,
    /// number of generations including this one
    pub depth: usize,
}

impl Layer {
    /// The layer committed by a builder on `parent` which had these triples added and removed.
    pub fn commit(parent_ix: Option<usize>, parent: Option<&Layer>, a: &Set, r: &Set) -> Layer {
        let empty = Arc::new(Set::new());
        let pset = parent.map(|p| p.set.clone()).unwrap_or(empty);
        let adds: Set = a
            .iter()
            .filter(|k| !r.contains(k) && !pset.contains(k))
            .cloned()
            .collect();
        let rems: Set = r
            .iter()
            .filter(|k| !a.contains(k) && pset.contains(k))
            .cloned()
            .collect();
        let mut set: Set = (*pset).clone();
        for k in &rems {
            set.remove(k);
        }
        set.extend(adds.iter().cloned());
        let mut dict = parent.map(|p| (*p.dict).clone()).unwrap_or_default();
        for k in &adds {
            dict.absorb(k);
        }
        Layer {
            parent: parent_ix,
            set: Arc::new(set),
            adds: Arc::new(adds),
            rems: Arc::new(rems),
            dict: Arc::new(dict),
            depth: parent.map(|p| p.depth + 1).unwrap_or(1),
        }
    }
}
