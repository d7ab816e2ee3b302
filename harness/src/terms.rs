//! Vocabulary: maps small indices onto node names, predicate names and typed values.
use serde::{Deserialize, Serialize};
use tdb_succinct::{Base64Binary, Datatype, Decimal, HexBinary, TdbDataType, TypedDictEntry};
use terminus_store::layer::{ObjectType, ValueTriple};

/// A triple over vocabulary indices. `v` selects a value (true) or node (false) as the object.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct T {
    pub s: u32,
    pub p: u32,
    pub o: u32,
    pub v: bool,
}

/// Canonical (reduced) object.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum O {
    N(u32),
    V(u32),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Voc {
    pub style: u8,
    pub nn: u32,
    pub np: u32,
    pub nv: u32,
}

pub const STYLES: u8 = 5;

fn odd(i: u32) -> String {
    // a fixed list of awkward strings, then numbered awkward strings
    const L: &[&str] = &[
        "", " ", "a", "A", "aa", "a b", "\n", "\t\u{0}x", "é", "e\u{301}", "日本語", "\u{10FFFF}",
        "\u{7f}", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "<http://x#y>", "\"quoted\\\"", "0", "00", "-1",
        "1e5", "true", "null", "\u{feff}bom", "a\u{0}", "\u{0}", "\u{1}",
    ];
    let n = L.len() as u32;
    if i < n {
        L[i as usize].to_string()
    } else {
        let k = i - n;
        match k % 5 {
            0 => format!("{}#{}", "x".repeat((k % 300) as usize), k),
            1 => format!("é{}ü", k),
            2 => format!("{}\u{0}", k),
            3 => format!("日本{:x}", k),
            _ => format!("{} {}", k, "y".repeat(((k / 5) % 140) as usize)),
        }
    }
}

impl Voc {
    pub fn norm(&self, t: T) -> (u32, u32, O) {
        (
            t.s % self.nn.max(1),
            t.p % self.np.max(1),
            if t.v {
                O::V(t.o % self.nv.max(1))
            } else {
                O::N(t.o % self.nn.max(1))
            },
        )
    }
    pub fn node(&self, i: u32) -> String {
        match self.style {
            0 => format!("n{}", i),
            1 => format!("terminusdb:///data/SomeClass/with/a/long/shared/prefix/{:06}", i * 7919 % 1000003),
            2 => odd(i),
            3 => format!("t{}", i),
            // large scattered names
            _ => format!("{:x}{}", (i as u64).wrapping_mul(0x9E3779B97F4A7C15), "q".repeat((i % 17) as usize)),
        }
    }
    pub fn pred(&self, i: u32) -> String {
        match self.style {
            0 => format!("p{}", i),
            1 => format!("terminusdb:///schema#property_{:06}", i * 104729 % 1000003),
            2 => odd(i),
            3 => format!("t{}", i),
            _ => format!("{:x}", (i as u64).wrapping_mul(0xC2B2AE3D27D4EB4F)),
        }
    }
    pub fn value(&self, i: u32) -> TypedDictEntry {
        match self.style {
            0 => String::make_entry(&format!("v{}", i)),
            1 => String::make_entry(&format!("a value with a long shared prefix {:06}", i * 7919 % 1000003)),
            2 => String::make_entry(&odd(i)),
            // look-alikes of node and predicate names, and every kind of type
            3 => typed(i),
            _ => {
                if i % 3 == 0 {
                    u64::make_entry(&((i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5555_5555))
                } else {
                    typed(i)
                }
            }
        }
    }
    pub fn obj(&self, o: O) -> ObjectType {
        match o {
            O::N(i) => ObjectType::Node(self.node(i)),
            O::V(i) => ObjectType::Value(self.value(i)),
        }
    }
    pub fn triple(&self, k: (u32, u32, O)) -> ValueTriple {
        ValueTriple {
            subject: self.node(k.0),
            predicate: self.pred(k.1),
            object: self.obj(k.2),
        }
    }
}

/// An injective map from indices to typed values that cycles through the types.
pub fn typed(i: u32) -> TypedDictEntry {
    const N: u32 = 18;
    let k = i / N;
    let sgn = |k: u32| -> i64 {
        let m = ((k + 1) / 2) as i64;
        if k % 2 == 0 {
            m
        } else {
            -m
        }
    };
    let raw = |dt: Datatype, s: String| TypedDictEntry::new(dt, bytes::Bytes::from(s).into());
    match i % N {
        0 => String::make_entry(&format!("t{}", k)),
        1 => i32::make_entry(&(sgn(k) as i32)),
        2 => u32::make_entry(&k.wrapping_mul(0x01000193)),
        3 => i64::make_entry(&sgn(k).wrapping_mul(0x1000_0000_01)),
        4 => u64::make_entry(&(k as u64).wrapping_mul(0x9E3779B97F4A7C15)),
        5 => f32::make_entry(&(sgn(k) as f32 * 0.5)),
        6 => f64::make_entry(&(sgn(k) as f64 * 1.25)),
        7 => Decimal::make_entry(&Decimal::new(format!("{}.{}1", sgn(k), k)).unwrap()),
        8 => rug::Integer::make_entry(&(rug::Integer::from(sgn(k)) * 1_000_000_007u64 * 1_000_000_007u64)),
        9 if k < 2 => bool::make_entry(&(k == 1)),
        9 => raw(Datatype::Name, format!("t{}", k)),
        10 => raw(Datatype::LangString, format!("t{}@en", k)),
        11 => raw(Datatype::AnyURI, format!("t{}", k)),
        12 if k < 256 => u8::make_entry(&(k as u8)),
        12 => raw(Datatype::NCName, format!("t{}", k)),
        13 => i16::make_entry(&(sgn(k) as i16)),
        14 => Base64Binary::make_entry(&Base64Binary(k.to_le_bytes().to_vec())),
        15 => HexBinary::make_entry(&HexBinary(k.to_be_bytes().to_vec())),
        16 => raw(Datatype::Token, format!("t{}", k)),
        _ => raw(Datatype::AnySimpleType, format!("t{}", k)),
    }
}

/// The generators rely on distinct indices naming distinct terms.
pub fn self_check() {
    use std::collections::HashSet;
    for style in 0..STYLES {
        let v = Voc { style, nn: 1, np: 1, nv: 1 };
        let n = 900;
        let a: HashSet<String> = (0..n).map(|i| v.node(i)).collect();
        let b: HashSet<String> = (0..n).map(|i| v.pred(i)).collect();
        let c: HashSet<Vec<u8>> = (0..n)
            .map(|i| {
                let e = v.value(i);
                let mut x = vec![e.datatype() as u8];
                x.extend_from_slice(&e.to_bytes());
                x
            })
            .collect();
        assert_eq!((a.len(), b.len(), c.len()), (n as usize, n as usize, n as usize), "vocabulary {} is not injective", style);
    }
}
