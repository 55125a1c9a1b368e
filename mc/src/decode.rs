//! Independent decoder of the stored format: own CBOR parser, XChaCha20, zstd.
use crate::engine::R;
use crate::types::Sha;
use chacha20::cipher::{NewCipher, StreamCipher, StreamCipherSeek};
use chacha20::XChaCha20;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Cb {
    U(u64),
    N(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<Cb>),
    M(Vec<(Cb, Cb)>),
    Tag(u64, Box<Cb>),
    S(u8),
    F(u64),
}

pub fn parse(b: &[u8], p: &mut usize) -> R<Cb> {
    fn byte(b: &[u8], p: &mut usize) -> R<u8> {
        let x = *b.get(*p).ok_or("eof")?;
        *p += 1;
        Ok(x)
    }
    let ib = byte(b, p)?;
    let major = ib >> 5;
    let ai = ib & 31;
    let mut arg = 0u64;
    let indef = ai == 31;
    if ai < 24 {
        arg = ai as u64
    } else if ai <= 27 {
        for _ in 0..(1 << (ai - 24)) {
            arg = (arg << 8) | byte(b, p)? as u64;
        }
    } else if !indef {
        return Err("reserved ai".into());
    }
    let at_break = |p: &mut usize| -> R<bool> {
        if *b.get(*p).ok_or("eof")? == 0xff {
            *p += 1;
            Ok(true)
        } else {
            Ok(false)
        }
    };
    Ok(match major {
        0 => Cb::U(arg),
        1 => Cb::N(arg),
        2 | 3 => {
            let mut v = vec![];
            if indef {
                while !at_break(p)? {
                    match parse(b, p)? {
                        Cb::B(x) => v.extend(x),
                        Cb::T(x) => v.extend(x.bytes()),
                        _ => return Err("bad chunk".into()),
                    }
                }
            } else {
                let end = p.checked_add(arg as usize).ok_or("len")?;
                v.extend_from_slice(b.get(*p..end).ok_or("eof")?);
                *p = end;
            }
            if major == 2 {
                Cb::B(v)
            } else {
                Cb::T(String::from_utf8(v).map_err(|e| e.to_string())?)
            }
        }
        4 => {
            let mut v = vec![];
            if indef {
                while !at_break(p)? {
                    v.push(parse(b, p)?)
                }
            } else {
                for _ in 0..arg {
                    v.push(parse(b, p)?)
                }
            }
            Cb::A(v)
        }
        5 => {
            let mut v = vec![];
            let mut i = 0;
            loop {
                if indef {
                    if at_break(p)? {
                        break;
                    }
                } else if i >= arg {
                    break;
                }
                i += 1;
                let k = parse(b, p)?;
                let x = parse(b, p)?;
                v.push((k, x))
            }
            Cb::M(v)
        }
        6 => Cb::Tag(arg, Box::new(parse(b, p)?)),
        _ => {
            if ai >= 25 {
                Cb::F(arg)
            } else {
                Cb::S(arg as u8)
            }
        }
    })
}

pub fn parse_all(b: &[u8]) -> R<Vec<Cb>> {
    let mut p = 0;
    let mut v = vec![];
    while p < b.len() {
        v.push(parse(b, &mut p)?);
    }
    Ok(v)
}

/// byte slices of the top level items of a cbor sequence
pub fn split_items(b: &[u8]) -> R<Vec<Vec<u8>>> {
    let mut p = 0;
    let mut v = vec![];
    while p < b.len() {
        let s = p;
        parse(b, &mut p)?;
        v.push(b[s..p].to_vec());
    }
    Ok(v)
}

fn link_of(c: &Cb) -> R<Vec<u8>> {
    if let Cb::Tag(42, x) = c {
        if let Cb::B(b) = &**x {
            if b.first() == Some(&0) {
                return Ok(b[1..].to_vec());
            }
        }
    }
    Err(format!("not a link: {:?}", c))
}

/// all links (raw cid bytes) in a cbor value, at any depth
pub fn links_in(c: &Cb, out: &mut Vec<Vec<u8>>) {
    match c {
        Cb::Tag(42, _) => {
            if let Ok(l) = link_of(c) {
                out.push(l)
            }
        }
        Cb::Tag(_, x) => links_in(x, out),
        Cb::A(v) => v.iter().for_each(|x| links_in(x, out)),
        Cb::M(v) => v.iter().for_each(|(k, x)| {
            links_in(k, out);
            links_in(x, out)
        }),
        _ => {}
    }
}

pub fn sha_of_cid(cid: &[u8]) -> R<Sha> {
    // v1, dag-cbor, sha2-256, 32
    if cid.len() == 36 && cid[..4] == [1, 0x71, 0x12, 0x20] {
        let mut a = [0u8; 32];
        a.copy_from_slice(&cid[4..]);
        Ok(Sha(a))
    } else {
        Err(format!("unexpected cid {:?}", cid))
    }
}

#[derive(Clone, Debug)]
pub struct Raw {
    pub offset: u64,
    pub links: Vec<Vec<u8>>,
    pub payload: Vec<u8>,
}

pub fn raw(block: &[u8]) -> R<Raw> {
    let v = parse_all(block)?;
    crate::ck!(v.len() == 1, "block is not one cbor item");
    let a = match v.into_iter().next().unwrap() {
        Cb::A(a) => a,
        x => return Err(format!("block is not an array: {:?}", x)),
    };
    crate::ck!(a.len() == 3, "block has {} elements", a.len());
    let offset = match &a[0] {
        Cb::U(x) => *x,
        x => return Err(format!("offset: {:?}", x)),
    };
    let links = match &a[1] {
        Cb::A(x) => x.iter().map(link_of).collect::<R<Vec<_>>>()?,
        x => return Err(format!("links: {:?}", x)),
    };
    let payload = match &a[2] {
        Cb::B(x) => x.clone(),
        x => return Err(format!("payload: {:?}", x)),
    };
    Ok(Raw {
        offset,
        links,
        payload,
    })
}

pub fn crypt(key: &[u8; 32], offset: u64, data: &[u8]) -> Vec<u8> {
    let k = (*key).into();
    let n = [0u8; 24].into();
    let mut c = XChaCha20::new(&k, &n);
    c.seek(offset);
    let mut d = data.to_vec();
    c.apply_keystream(&mut d);
    d
}

pub fn unzstd(d: &[u8]) -> R<Vec<u8>> {
    zstd::decode_all(d).map_err(|e| format!("zstd: {}", e))
}

pub fn plain(block: &[u8], key: &[u8; 32]) -> R<(Raw, Vec<u8>)> {
    let r = raw(block)?;
    let p = unzstd(&crypt(key, r.offset, &r.payload))?;
    Ok((r, p))
}

/// one index record as stored in a branch block
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub leaf: bool,
    pub sealed: bool,
    pub link: Option<Sha>,
    /// keys (leaf) as u64s
    pub keys: Vec<u64>,
    /// summaries (branch) as (min,max,n)
    pub summaries: Vec<(u64, u64, u64)>,
    pub value_bytes: u64,
    pub count: u64,
    pub level: u64,
    pub key_bytes: u64,
}

fn fields(c: &Cb) -> R<BTreeMap<String, Cb>> {
    match c {
        Cb::M(m) => m
            .iter()
            .map(|(k, v)| match k {
                Cb::T(t) => Ok((t.clone(), v.clone())),
                x => Err(format!("key {:?}", x)),
            })
            .collect(),
        x => Err(format!("not a map: {:?}", x)),
    }
}
fn num(m: &BTreeMap<String, Cb>, f: &str) -> R<u64> {
    match m.get(f) {
        Some(Cb::U(x)) => Ok(*x),
        x => Err(format!("field {}: {:?}", f, x)),
    }
}
fn unwrap1(c: &Cb) -> &Cb {
    match c {
        Cb::A(v) if v.len() == 1 => &v[0],
        x => x,
    }
}

pub fn rec(c: &Cb) -> R<Rec> {
    let m = fields(c)?;
    let leaf = m.contains_key("keys");
    let sealed = match m.get("sealed") {
        Some(Cb::S(20)) => false,
        Some(Cb::S(21)) => true,
        x => return Err(format!("sealed: {:?}", x)),
    };
    let link = match m.get("link") {
        Some(Cb::S(22)) | None => None,
        Some(x) => Some(sha_of_cid(&link_of(x)?)?),
    };
    let mut keys = vec![];
    let mut summaries = vec![];
    let seq = m
        .get(if leaf { "keys" } else { "summaries" })
        .ok_or("no seq")?;
    let list = match unwrap_seq(seq) {
        Cb::A(v) => v.clone(),
        x => return Err(format!("seq: {:?}", x)),
    };
    for x in &list {
        if leaf {
            match unwrap1(x) {
                Cb::U(u) => keys.push(*u),
                x => return Err(format!("key: {:?}", x)),
            }
        } else {
            let f = fields(x)?;
            summaries.push((num(&f, "min")?, num(&f, "max")?, num(&f, "n")?));
        }
    }
    Ok(Rec {
        leaf,
        sealed,
        link,
        value_bytes: num(&m, "value_bytes")?,
        count: if leaf {
            keys.len() as u64
        } else {
            num(&m, "count")?
        },
        level: if leaf { 0 } else { num(&m, "level")? },
        key_bytes: if leaf { 0 } else { num(&m, "key_bytes")? },
        keys,
        summaries,
    })
}
/// VecSeq is a newtype, encoded as a one element list containing the list
fn unwrap_seq(c: &Cb) -> &Cb {
    match c {
        Cb::A(v) if v.len() == 1 => match &v[0] {
            x @ Cb::A(_) => x,
            _ => c,
        },
        x => x,
    }
}
