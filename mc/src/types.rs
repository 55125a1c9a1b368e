//! Tree types, links, keys and values used by the harness.
use banyan::index::{Summarizable, VecSeq};
use banyan::TreeTypes;
use cbor_data::codec::{ReadCbor, WriteCbor};
use cbor_data::{Cbor, Writer};
use cid::Cid;
use libipld::cbor::DagCborCodec;
use libipld::codec::{Decode, Encode};
use libipld::DagCbor;
use sha2::{Digest, Sha256};
use std::convert::TryFrom;
use std::fmt;
use std::io::{Read, Seek, Write};

#[derive(Copy, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sha(pub [u8; 32]);

impl Sha {
    pub fn of(data: &[u8]) -> Self {
        let mut h = Sha256::new();
        h.update(data);
        Sha(h.finalize().into())
    }
    pub fn cid(&self) -> Cid {
        Cid::new_v1(0x71, multihash::Multihash::wrap(0x12, &self.0).unwrap())
    }
}
impl fmt::Display for Sha {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for b in &self.0[..8] {
            write!(f, "{:02x}", b)?;
        }
        Ok(())
    }
}
impl fmt::Debug for Sha {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self)
    }
}
impl TryFrom<Cid> for Sha {
    type Error = anyhow::Error;
    fn try_from(c: Cid) -> anyhow::Result<Self> {
        anyhow::ensure!(c.codec() == 0x71 && c.hash().code() == 0x12, "bad cid");
        Ok(Sha(<[u8; 32]>::try_from(c.hash().digest())?))
    }
}
impl Encode<DagCborCodec> for Sha {
    fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        Cid::encode(&self.cid(), c, w)
    }
}
impl Decode<DagCborCodec> for Sha {
    fn decode<R: Read + Seek>(c: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
        Sha::try_from(Cid::decode(c, r)?)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, DagCbor)]
pub struct K(pub u64);

/// summary, deliberately a different type than the key
#[derive(Clone, Copy, Debug, PartialEq, Eq, DagCbor)]
pub struct KR {
    pub min: u64,
    pub max: u64,
    pub n: u64,
}

impl Summarizable<KR> for VecSeq<K> {
    fn summarize(&self) -> KR {
        let k = self.as_ref();
        KR {
            min: k.iter().map(|x| x.0).min().unwrap_or(u64::MAX),
            max: k.iter().map(|x| x.0).max().unwrap_or(0),
            n: k.len() as u64,
        }
    }
}
impl Summarizable<KR> for VecSeq<KR> {
    fn summarize(&self) -> KR {
        let k = self.as_ref();
        KR {
            min: k.iter().map(|x| x.min).min().unwrap_or(u64::MAX),
            max: k.iter().map(|x| x.max).max().unwrap_or(0),
            n: k.iter().map(|x| x.n).sum(),
        }
    }
}

#[derive(Debug, Clone)]
pub struct TT;
impl TreeTypes for TT {
    type Key = K;
    type Summary = KR;
    type KeySeq = VecSeq<K>;
    type SummarySeq = VecSeq<KR>;
    type Link = Sha;
}

/// A value: the raw bytes of one well-formed CBOR item.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Val(pub Vec<u8>);

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0.len() <= 24 {
            write!(f, "Val(")?;
            for b in &self.0 {
                write!(f, "{:02x}", b)?;
            }
            write!(f, ")")
        } else {
            write!(f, "Val(len={},h={})", self.0.len(), Sha::of(&self.0))
        }
    }
}
impl WriteCbor for Val {
    fn write_cbor<W: Writer>(&self, w: W) -> W::Output {
        w.write_trusting(&self.0)
    }
}
impl ReadCbor for Val {
    fn fmt(f: &mut impl fmt::Write) -> std::fmt::Result {
        write!(f, "Val")
    }
    fn read_cbor(cbor: &Cbor) -> cbor_data::codec::Result<Self> {
        Ok(Val(cbor.as_slice().to_vec()))
    }
}

// ---- cbor building helpers (independent of the libraries under test) ----
pub fn head(out: &mut Vec<u8>, major: u8, v: u64) {
    let m = major << 5;
    if v < 24 {
        out.push(m | v as u8)
    } else if v <= 0xff {
        out.push(m | 24);
        out.push(v as u8)
    } else if v <= 0xffff {
        out.push(m | 25);
        out.extend_from_slice(&(v as u16).to_be_bytes())
    } else if v <= 0xffff_ffff {
        out.push(m | 26);
        out.extend_from_slice(&(v as u32).to_be_bytes())
    } else {
        out.push(m | 27);
        out.extend_from_slice(&v.to_be_bytes())
    }
}
pub fn c_uint(v: u64) -> Vec<u8> {
    let mut o = vec![];
    head(&mut o, 0, v);
    o
}
pub fn c_bytes(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    head(&mut o, 2, b.len() as u64);
    o.extend_from_slice(b);
    o
}
pub fn c_text(b: &str) -> Vec<u8> {
    let mut o = vec![];
    head(&mut o, 3, b.len() as u64);
    o.extend_from_slice(b.as_bytes());
    o
}
pub fn c_arr(items: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    head(&mut o, 4, items.len() as u64);
    for i in items {
        o.extend_from_slice(i);
    }
    o
}
pub fn c_map(items: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    head(&mut o, 5, items.len() as u64);
    for (k, v) in items {
        o.extend_from_slice(k);
        o.extend_from_slice(v);
    }
    o
}
pub fn c_tag(tag: u64, item: Vec<u8>) -> Vec<u8> {
    let mut o = vec![];
    head(&mut o, 6, tag);
    o.extend_from_slice(&item);
    o
}
pub fn c_link(l: &Sha) -> Vec<u8> {
    let mut b = vec![0u8];
    b.extend_from_slice(&l.cid().to_bytes());
    c_tag(42, c_bytes(&b))
}

/// deterministic incompressible bytes
pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(n + 32);
    let mut s = seed ^ 0x9e3779b97f4a7c15;
    while out.len() < n {
        // splitmix64
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        out.extend_from_slice(&z.to_le_bytes());
    }
    out.truncate(n);
    out
}
