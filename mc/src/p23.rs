//! P23 tag expressions and tag index, P24 tag and time queries, P25 sqlite store, P26 inspection tools
use crate::ck;
use crate::decode;
use crate::engine::*;
use crate::hist::*;
use crate::q::*;
use crate::reads::*;
use crate::types::*;
use banyan::index::{CompactSeq, Index, NodeInfo, UnitSeq, VecSeq};
use banyan::query::{AllQuery, QueryExt};
use banyan::store::{BlockWriter, BranchCache, MemStore, ReadOnlyStore};
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree};
use banyan_utils::sqlite::SqliteStore;
use banyan_utils::tag_index::{Dnf, Expression, Tag, TagIndex, TagSet};
use banyan_utils::tags::{DnfQuery, Key, KeySeq, Sha256Digest, TT as UT};
use ipfs_sqlite_block_store::BlockStore;
use libipld::cbor::DagCborCodec;
use libipld::codec::Codec;
use libipld::DefaultParams;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

// -------------------------------------------------------------------------------- P23

/// tag names, the last one never occurs in an index
const NAMES: [&str; 6] = ["b", "", "ba", "ö-long-tag-name-that-is-not-inlined", "a", "z"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum X {
    L(u8),
    A(Vec<X>),
    O(Vec<X>),
}
impl X {
    fn real(&self) -> Expression {
        match self {
            X::L(i) => Expression::Literal(NAMES[*i as usize].into()),
            X::A(v) => Expression::And(v.iter().map(|x| x.real()).collect()),
            X::O(v) => Expression::Or(v.iter().map(|x| x.real()).collect()),
        }
    }
    /// built with the flattening constructors
    fn flat(&self) -> Expression {
        match self {
            X::L(i) => Expression::literal(NAMES[*i as usize].into()),
            X::A(v) => Expression::and(v.iter().map(|x| x.flat()).collect()),
            X::O(v) => Expression::or(v.iter().map(|x| x.flat()).collect()),
        }
    }
    /// built with operators
    fn ops(&self) -> Expression {
        match self {
            X::L(i) => Expression::literal(NAMES[*i as usize].into()),
            X::A(v) => v[1..].iter().fold(v[0].ops(), |a, b| a & b.ops()),
            X::O(v) => v[1..].iter().fold(v[0].ops(), |a, b| a | b.ops()),
        }
    }
    /// truth table: bit s set iff true for the set s of tags
    fn tt(&self, n: u8) -> u64 {
        match self {
            X::L(i) => var(*i, n),
            X::A(v) => v.iter().fold(all(n), |a, x| a & x.tt(n)),
            X::O(v) => v.iter().fold(0, |a, x| a | x.tt(n)),
        }
    }
}
fn all(n: u8) -> u64 {
    if n == 6 {
        u64::MAX
    } else {
        (1 << (1u64 << n)) - 1
    }
}
fn var(i: u8, n: u8) -> u64 {
    (0..1u64 << n).filter(|s| s >> i & 1 == 1).fold(0, |a, s| a | 1 << s)
}
fn num(t: &Tag) -> R<u8> {
    NAMES.iter().position(|x| x == t).map(|x| x as u8).ok_or_else(|| format!("unknown tag {:?}", t))
}
fn ett(e: &Expression, n: u8) -> R<u64> {
    Ok(match e {
        Expression::Literal(t) => var(num(t)?, n),
        Expression::And(v) => {
            ck!(!v.is_empty(), "empty and");
            let mut a = all(n);
            for x in v {
                a &= ett(x, n)?;
            }
            a
        }
        Expression::Or(v) => {
            ck!(!v.is_empty(), "empty or");
            let mut a = 0;
            for x in v {
                a |= ett(x, n)?;
            }
            a
        }
    })
}
/// minimal sets of a monotone function
fn primes(tt: u64, n: u8) -> BTreeSet<u64> {
    let sets: Vec<u64> = (0..1u64 << n).filter(|s| tt >> s & 1 == 1).collect();
    sets.iter().copied().filter(|s| !sets.iter().any(|t| t != s && t & s == *t)).collect()
}
fn dset(d: &Dnf) -> R<BTreeSet<u64>> {
    let mut o = BTreeSet::new();
    for s in &d.0 {
        let mut x = 0;
        for t in s.iter() {
            x |= 1 << num(t)?;
        }
        o.insert(x);
    }
    Ok(o)
}
fn tagset(s: u64) -> TagSet {
    (0..6).filter(|i| s >> i & 1 == 1).map(|i| Tag::from(NAMES[i])).collect()
}

/// meaning of the printed form; & binds stronger than |
fn parse_print(s: &str, n: u8) -> R<u64> {
    struct P<'a>(Vec<char>, usize, u8, &'a str);
    impl<'a> P<'a> {
        fn ws(&mut self) {
            while self.0.get(self.1) == Some(&' ') {
                self.1 += 1
            }
        }
        fn or(&mut self) -> R<u64> {
            let mut a = self.and()?;
            loop {
                self.ws();
                if self.0.get(self.1) != Some(&'|') {
                    return Ok(a);
                }
                self.1 += 1;
                a |= self.and()?;
            }
        }
        fn and(&mut self) -> R<u64> {
            let mut a = self.atom()?;
            loop {
                self.ws();
                if self.0.get(self.1) != Some(&'&') {
                    return Ok(a);
                }
                self.1 += 1;
                a &= self.atom()?;
            }
        }
        fn atom(&mut self) -> R<u64> {
            self.ws();
            match self.0.get(self.1) {
                Some('(') => {
                    self.1 += 1;
                    let r = self.or()?;
                    self.ws();
                    ck!(self.0.get(self.1) == Some(&')'), "unbalanced: {}", self.3);
                    self.1 += 1;
                    Ok(r)
                }
                Some('\'') => {
                    self.1 += 1;
                    let mut t = String::new();
                    while let Some(c) = self.0.get(self.1) {
                        self.1 += 1;
                        if *c == '\'' {
                            return Ok(var(num(&Tag::from(t))?, self.2));
                        }
                        t.push(*c);
                    }
                    Err(format!("unterminated: {}", self.3))
                }
                x => Err(format!("unexpected {:?} in {}", x, self.3)),
            }
        }
    }
    let mut p = P(s.chars().collect(), 0, n, s);
    let r = p.or()?;
    p.ws();
    ck!(p.1 == p.0.len(), "trailing text in {}", s);
    Ok(r)
}

fn check_dnf(d: &Dnf, tt: u64, n: u8, what: &str) -> R<()> {
    let got = dset(d)?;
    let want = primes(tt, n);
    ck!(got == want, "{}: normal form {:?}, the minimal one is {:?}", what, got, want);
    ck!(d.0.len() == got.len(), "{}: duplicates", what);
    Ok(())
}

fn expr(x: &X, n: u8) -> R<()> {
    let tt = x.tt(n);
    for (what, e) in [("expression", x.real()), ("flattened", x.flat()), ("operators", x.ops())] {
        ck!(ett(&e, n)? == tt, "{}: meaning changed: {:?}", what, e);
        let s = e.simplify();
        ck!(ett(&s, n)? == tt, "{}: simplified to {:?}", what, s);
        ck!(s.simplify() == s, "{}: simplify is not idempotent", what);
        let d = e.clone().dnf();
        check_dnf(&d, tt, n, what)?;
        check_dnf(&s.clone().dnf(), tt, n, "simplified")?;
        ck!(Dnf::from(e.clone()) == d, "From differs");
        let b = d.clone().expression();
        ck!(ett(&b, n)? == tt, "{}: back from normal form: {:?}", what, b);
        check_dnf(&b.dnf(), tt, n, "again")?;
        if what != "expression" {
            let p = e.to_string();
            ck!(parse_print(&p, n)? == tt, "{}: printed as {}", what, p);
        }
        let p = s.to_string();
        ck!(parse_print(&p, n)? == tt, "simplified: printed as {}", p);
    }
    Ok(())
}

fn dnf_of(tt: u64, n: u8) -> Dnf {
    Dnf(primes(tt, n).into_iter().map(tagset).collect())
}
/// all monotone functions of n variables except the constants, as truth tables
fn monotone(n: u8) -> Vec<u64> {
    fn rec(n: u8) -> Vec<u64> {
        if n == 0 {
            return vec![0, 1];
        }
        let sub = rec(n - 1);
        let sh = 1u32 << (n - 1);
        let mut v = vec![];
        for lo in &sub {
            for hi in &sub {
                // f(x, 0) implies f(x, 1)
                if lo & hi == *lo {
                    v.push(lo | hi << sh);
                }
            }
        }
        v
    }
    // without the constants: a constant truth is the empty conjunction
    rec(n).into_iter().filter(|x| *x != 0 && x & 1 == 0).collect()
}

fn pairs(a: u64, bs: &[u64], n: u8) -> R<u64> {
    let da = dnf_of(a, n);
    for b in bs {
        let db = dnf_of(*b, n);
        check_dnf(&(da.clone() | db.clone()), a | b, n, "or")?;
        check_dnf(&(da.clone() & db.clone()), a & b, n, "and")?;
    }
    Ok(2 * bs.len() as u64)
}

fn tag_index(elems: &[u8], n: u8) -> R<u64> {
    let sets: Vec<TagSet> = elems.iter().map(|e| tagset(*e as u64)).collect();
    let ti = TagIndex::from_elements(&sets);
    let mut cnt = 0;
    let one = |ti: &TagIndex, what: &str| -> R<()> {
        ck!(ti.as_elements() == sets, "{}: elements {:?} want {:?}", what, ti.as_elements(), sets);
        ck!(ti.iter_elements().collect::<Vec<_>>() == sets, "{}: iter_elements", what);
        for i in 0..sets.len() + 2 {
            ck!(ti.get(i).as_ref() == sets.get(i), "{}: get {}", what, i);
        }
        Ok(())
    };
    one(&ti, "index")?;
    for tt in monotone(n) {
        let d = dnf_of(tt, n);
        let want: Vec<usize> = (0..elems.len()).filter(|i| tt >> (elems[*i] & ((1 << n) - 1)) & 1 == 1).collect();
        let got = ti.matching(d.clone());
        ck!(got == want, "matching {:?}: {:?} want {:?}", dset(&d)?, got, want);
        // a form that is not minimal
        let big = Dnf((0..1u64 << n).filter(|s| tt >> s & 1 == 1).map(tagset).collect());
        ck!(ti.matching(big) == want, "matching a non minimal form");
        cnt += 2;
    }
    // a tag that does not occur
    ck!(ti.matching(Dnf([tagset(1 << 5)].into_iter().collect())).is_empty(), "unknown tag matches");
    let with = Dnf([tagset(1 << 5 | 1), tagset(1)].into_iter().collect());
    let want: Vec<usize> = (0..elems.len()).filter(|i| elems[*i] & 1 == 1).collect();
    ck!(ti.matching(with) == want, "term with an unknown tag");
    ck!(ti.matching(Dnf(Default::default())).is_empty(), "empty disjunction matches");
    // formats
    let c = DagCborCodec.encode(&ti).map_err(es)?;
    let t2: TagIndex = DagCborCodec.decode(&c).map_err(es)?;
    ck!(t2 == ti, "dag-cbor");
    one(&t2, "dag-cbor")?;
    let j = serde_json::to_vec(&ti).map_err(|e| e.to_string())?;
    let t3: TagIndex = serde_json::from_slice(&j).map_err(|e| e.to_string())?;
    ck!(t3 == ti, "json");
    // what is written is a table and indices into it, by independent decoding
    let v = decode::parse_all(&c)?;
    let (table, idx) = match &v[..] {
        [decode::Cb::A(a)] if a.len() == 2 => match (&a[0], &a[1]) {
            (decode::Cb::A(t), decode::Cb::A(i)) => (t.clone(), i.clone()),
            _ => return Err("unexpected encoding".into()),
        },
        _ => return Err("unexpected encoding".into()),
    };
    ck!(idx.len() == elems.len(), "number of encoded elements");
    for (i, e) in idx.iter().enumerate() {
        if let decode::Cb::A(e) = e {
            let mut s = 0u64;
            for x in e {
                if let decode::Cb::U(x) = x {
                    if let Some(decode::Cb::T(t)) = table.get(*x as usize) {
                        s |= 1 << num(&Tag::from(t.as_str()))?;
                    }
                }
            }
            ck!(s == elems[i] as u64 && e.len() == s.count_ones() as usize, "encoded element {}", i);
        }
    }
    // references that do not exist
    let js: Value = serde_json::from_slice(&j).map_err(|e| e.to_string())?;
    let nt = js[0].as_array().ok_or("json")?.len() as u64;
    for bad in [nt, nt + 1, u32::MAX as u64] {
        for i in 0..elems.len() {
            let mut x = js.clone();
            x[1][i].as_array_mut().ok_or("json")?.push(json!(bad));
            ck!(serde_json::from_value::<TagIndex>(x).is_err(), "json with reference {} of {} accepted", bad, nt);
            let mut els: Vec<Vec<u8>> = vec![];
            for k in 0..elems.len() {
                let mut ix: Vec<Vec<u8>> = js[1][k].as_array().ok_or("json")?.iter().map(|x| c_uint(x.as_u64().unwrap())).collect();
                if k == i {
                    ix.push(c_uint(bad));
                }
                els.push(c_arr(&ix));
            }
            let tb: Vec<Vec<u8>> = js[0].as_array().unwrap().iter().map(|x| c_text(x.as_str().unwrap())).collect();
            let enc = c_arr(&[c_arr(&tb), c_arr(&els)]);
            ck!(DagCborCodec.decode::<TagIndex>(&enc).is_err(), "dag-cbor with reference {} of {} accepted", bad, nt);
            cnt += 2;
        }
    }
    Ok(cnt)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum C23 {
    Expr { x: Vec<X>, n: u8 },
    Pairs { a: u64, lo: usize, hi: usize, n: u8 },
    Index { e: Vec<u8>, n: u8 },
}
fn check23(c: &C23) -> R<u64> {
    match c {
        C23::Expr { x, n } => {
            for x in x {
                expr(x, *n).map_err(|e| format!("{:?}: {}", x, e))?;
            }
            Ok(x.len() as u64)
        }
        C23::Pairs { a, lo, hi, n } => {
            thread_local!(static M: std::cell::RefCell<(u8, Vec<u64>)> = Default::default());
            let m = M.with(|m| {
                let mut m = m.borrow_mut();
                if m.0 != *n {
                    *m = (*n, monotone(*n));
                }
                m.1[*lo..(*hi).min(m.1.len())].to_vec()
            });
            pairs(*a, &m, *n)
        }
        C23::Index { e, n } => tag_index(e, *n),
    }
}
pub fn replay23(v: &Value) -> R<()> {
    let c: C23 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check23(&c).map(|_| ())
}
fn layer(base: &[X], max: usize) -> Vec<X> {
    let mut lists: Vec<Vec<X>> = vec![vec![]];
    let mut out = vec![];
    for _ in 0..max {
        lists = lists
            .iter()
            .flat_map(|l| {
                base.iter().map(move |b| {
                    let mut l = l.clone();
                    l.push(b.clone());
                    l
                })
            })
            .collect();
        for l in &lists {
            out.push(X::A(l.clone()));
            out.push(X::O(l.clone()));
        }
    }
    out
}
pub fn explore23(ctx: &Ctx) -> (&'static str, Value) {
    let mut v = vec![];
    let lits: Vec<X> = (0..4).map(X::L).collect();
    let l1 = layer(&lits, 3);
    let l1b: Vec<X> = lits.iter().cloned().chain(layer(&lits, 2)).collect();
    let l2 = layer(&l1b, 2);
    // three levels over three literals
    let s1: Vec<X> = lits[..3].iter().cloned().chain(layer(&lits[..3], 2)).collect();
    let s2 = layer(&s1[..ctx.pick(15, 21)], 2);
    let mut l3 = vec![];
    for a in &s2 {
        for b in &s1[..ctx.pick(8, 21)] {
            l3.push(X::A(vec![a.clone(), b.clone()]));
            l3.push(X::O(vec![a.clone(), b.clone()]));
            l3.push(X::O(vec![b.clone(), a.clone()]));
            l3.push(X::A(vec![X::O(vec![a.clone()]), b.clone()]));
        }
    }
    // lists of three over pairs
    let t1: Vec<X> = layer(&lits[..3], 2).into_iter().filter(|x| matches!(x, X::A(v) | X::O(v) if v.len() == 2)).chain(lits.iter().cloned()).collect();
    let l3b = layer(&t1, 3);
    for (xs, n) in [(&l1, 4u8), (&l2, 4), (&l3, 3), (&l3b, 4)] {
        for c in xs.chunks(200) {
            v.push(C23::Expr { x: c.to_vec(), n });
        }
        ctx.count("expressions", xs.len() as u64);
    }
    for n in 1..=ctx.pick(4, 5) {
        let m = monotone(n);
        for a in &m {
            for lo in (0..m.len()).step_by(500) {
                v.push(C23::Pairs { a: *a, lo, hi: lo + 500, n });
            }
        }
        ctx.count(&format!("monotone functions of {} variables", n), m.len() as u64);
    }
    // tag indices: all lists of tag sets
    let mut lists: Vec<Vec<u8>> = vec![vec![]];
    for len in 0..=ctx.pick(3, 4) {
        for l in &lists {
            v.push(C23::Index { e: l.clone(), n: 3 });
        }
        if len < 4 {
            lists = lists.iter().flat_map(|l| (0..8u8).map(move |s| { let mut l = l.clone(); l.push(s); l })).collect();
        }
    }
    for a in 0..32u8 {
        v.push(C23::Index { e: vec![a], n: 4.min(5) });
        for b in 0..32u8 {
            v.push(C23::Index { e: vec![a, b], n: ctx.pick(3, 4) });
        }
    }
    ctx.note("all expressions of the stated shapes over 4 literals (3 for three nested levels), judged by truth tables and prime implicants; or/and of all pairs of monotone functions of up to 4 (thorough: 5) variables; tag indices for all lists of up to 3 (4) tag sets over 3 tags and all pairs over 5 tags, with all monotone queries over 3-4 tags, both formats, all invalid references".to_string());
    let r = ctx.par(&v, check23);
    let n: u64 = r.iter().flatten().sum();
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ctx.states.fetch_max(v.len() as u64, SeqCst);
    ("model_checking", Value::Null)
}

// -------------------------------------------------------------------------------- P24

/// an entry: tags as a bit set over NAMES, time
type En = (u8, u64);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C24 {
    entries: Vec<En>,
    /// (leaf, key branches, summary branches, how: 0 bulk, 1 single, 2 unpacked pieces, 3 unpacked + pack)
    layouts: Vec<(usize, usize, usize, u8)>,
    queries: Vec<Vec<(u8, u64, u64)>>,
}
fn useq() -> Secrets {
    Secrets::default()
}
fn ukey(i: usize, e: &En) -> Key {
    // logical time falls and rises
    Key::single([50, 7, 90, 12, 3, 60][i % 6] + i as u64, e.1, tagset(e.0 as u64))
}
fn kv(k: &Key) -> R<(u64, u64, u64, u64)> {
    let j = serde_json::to_value(k).map_err(|e| e.to_string())?;
    let mut s = 0;
    for t in j["tags"].as_array().ok_or("tags")? {
        s |= 1 << num(&Tag::from(t.as_str().ok_or("tag")?))?;
    }
    let g = |f: &str| j["time"][f].as_u64().ok_or("time");
    Ok((s, g("min_lamport")?, g("min_time")?, g("max_time")?))
}
type UTxn = Transaction<UT, MemStore<Sha256Digest>, MemStore<Sha256Digest>>;
fn ucfg(leaf: usize, key: usize, sum: usize) -> Config {
    Config { max_leaf_count: leaf, max_key_branches: key, max_summary_branches: sum, target_leaf_size: 1 << 20, max_uncompressed_leaf_size: 1 << 20, zstd_level: 1 }
}
/// a sequence returns what it was built from, whatever is asked, also after encoding
fn seq<S, T>(what: &str, want: &[T]) -> R<()>
where
    S: CompactSeq<Item = T> + std::iter::FromIterator<T>,
    T: Clone + PartialEq + std::fmt::Debug,
{
    let s: S = want.iter().cloned().collect();
    let enc = DagCborCodec.encode(&s).map_err(es)?;
    let dec: S = DagCborCodec.decode(&enc).map_err(es)?;
    for s in [s, dec] {
        ck!(s.len() == want.len() && s.count() == want.len() as u64 && s.is_empty() == want.is_empty(), "{}: length", what);
        for i in 0..want.len() + 2 {
            ck!(s.get(i).as_ref() == want.get(i), "{}: at {}: {:?} want {:?}", what, i, s.get(i), want.get(i));
        }
        ck!(s.to_vec() == want, "{}: to_vec", what);
        if let (Some(f), Some(l)) = (want.first(), want.last()) {
            ck!(s.first() == *f && s.last() == *l, "{}: ends", what);
        }
        if want.len() <= 6 {
            for m in 0..1u32 << want.len() {
                let mask: Vec<bool> = (0..want.len()).map(|i| m >> i & 1 == 1).collect();
                let sel: Vec<T> = want.iter().zip(&mask).filter(|x| *x.1).map(|x| x.0.clone()).collect();
                ck!(s.select(&mask) == sel, "{}: select {:?}", what, mask);
            }
        }
    }
    Ok(())
}
fn check24(c: &C24) -> R<u64> {
    let mut n = 0;
    seq::<UnitSeq, ()>("unit sequence", &vec![(); c.entries.len()])?;
    seq::<VecSeq<u64>, u64>("vec sequence", &c.entries.iter().map(|e| e.1).collect::<Vec<_>>())?;
    if !c.entries.is_empty() {
        seq::<KeySeq, Key>("key sequence", &c.entries.iter().enumerate().map(|(i, e)| ukey(i, e)).collect::<Vec<_>>())?;
    }
    let keys: Vec<Key> = c.entries.iter().enumerate().map(|(i, e)| ukey(i, e)).collect();
    // the key sequence itself
    let ks: KeySeq = keys.iter().cloned().collect();
    ck!(ks.len() == keys.len(), "length of key sequence");
    for i in 0..keys.len() + 1 {
        ck!(ks.get(i).as_ref() == keys.get(i), "key sequence at {}: {:?} want {:?}", i, ks.get(i), keys.get(i));
    }
    let enc = DagCborCodec.encode(&ks).map_err(es)?;
    let dec: KeySeq = DagCborCodec.decode(&enc).map_err(es)?;
    ck!(dec.to_vec() == keys, "encoded key sequence");
    ck!(ks.to_vec() == keys && (keys.is_empty() || (ks.first() == keys[0] && ks.last() == keys[keys.len() - 1])), "key sequence accessors");
    for (leaf, kb, sb, how) in &c.layouts {
        let store = MemStore::new(usize::MAX, Sha256Digest::digest);
        let mut txn: UTxn = Transaction::new(Forest::new(store.clone(), BranchCache::new(1 << 16)), store);
        let mut b: StreamBuilder<UT, u64> = StreamBuilder::new(ucfg(*leaf, *kb, *sb), useq());
        let it: Vec<(Key, u64)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64 * 3)).collect();
        match how {
            0 => txn.extend(&mut b, it.clone()).map_err(es)?,
            1 => {
                for x in &it {
                    txn.push(&mut b, x.0.clone(), x.1).map_err(es)?;
                }
            }
            _ => {
                for x in it.chunks(2) {
                    txn.extend_unpacked(&mut b, x.to_vec()).map_err(es)?;
                }
                if *how == 3 {
                    txn.pack(&mut b).map_err(es)?;
                }
            }
        }
        let t = b.snapshot();
        let f: &Forest<UT, _> = &txn;
        // summaries cover
        let mut off = 0usize;
        fn walk<S: ReadOnlyStore<Sha256Digest>>(f: &Forest<UT, S>, ix: &Index<UT>, off: &mut usize, c: &C24, keys: &[Key]) -> R<()> {
            let lo = *off;
            let kids = match ix {
                Index::Leaf(l) => {
                    let got: Vec<Key> = l.keys().collect();
                    ck!(keys.get(lo..lo + got.len()) == Some(&got[..]), "keys of the leaf at {}", lo);
                    *off += got.len();
                    None
                }
                Index::Branch(x) => {
                    let br = banyan::index::BranchLoader::new(f, &useq(), x.link.ok_or("no link")?).load().map_err(es)?;
                    for k in br.children.iter() {
                        walk(f, k, off, c, keys)?;
                    }
                    Some((br, x.summaries.clone()))
                }
            };
            let hi = *off;
            let s = kv(&ix.summarize())?;
            let want = (
                c.entries[lo..hi].iter().fold(0u64, |a, e| a | e.0 as u64),
                keys[lo..hi].iter().map(|k| kv(k).map(|x| x.1)).collect::<R<Vec<_>>>()?.into_iter().min().unwrap(),
                c.entries[lo..hi].iter().map(|e| e.1).min().unwrap(),
                c.entries[lo..hi].iter().map(|e| e.1).max().unwrap(),
            );
            ck!(s == want, "summary of {}..{}: {:?} want {:?}", lo, hi, s, want);
            if let Some((br, sums)) = kids {
                ck!(sums.len() == br.children.len(), "number of summaries");
                for (i, k) in br.children.iter().enumerate() {
                    ck!(sums.get(i) == Some(k.summarize()), "stored summary {}", i);
                }
            }
            Ok(())
        }
        if let Some(ix) = b.index() {
            walk(f, ix, &mut off, c, &keys)?;
        }
        ck!(off == keys.len(), "count");
        for q in &c.queries {
            let dnf = || DnfQuery(q.iter().map(|(t, a, b)| if *a == 0 && *b == u64::MAX { Key::filter_tags(tagset(*t as u64)) } else { Key::range(*a, *b, tagset(*t as u64)) }).collect());
            let want: Vec<(u64, Key, u64)> = (0..keys.len())
                .filter(|i| q.iter().any(|(t, a, b)| { let e = c.entries[*i]; e.0 & !t == 0 && *a <= e.1 && e.1 <= *b }))
                .map(|i| (i as u64, keys[i].clone(), i as u64 * 3))
                .collect();
            let got = drain(f.iter_filtered(&t, dnf().boxed()), 1 << 20)?;
            diff(&format!("layout {:?} query {:?}", (leaf, kb, sb, how), q), &got, &want)?;
            let rev: Vec<_> = drain(f.iter_filtered_reverse(&t, dnf().boxed()), 1 << 20)?;
            let mut w2 = want.clone();
            w2.reverse();
            let mut r2 = rev.clone();
            r2.sort_by(|a, b| b.0.cmp(&a.0));
            diff(&format!("reverse, layout {:?} query {:?}", (leaf, kb, sb, how), q), &r2, &w2)?;
            n += 2;
        }
    }
    Ok(n)
}
pub fn replay24(v: &Value) -> R<()> {
    let c: C24 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check24(&c).map(|_| ())
}
pub fn explore24(ctx: &Ctx) -> (&'static str, Value) {
    let layouts = vec![(1, 2, 2, 0), (1, 2, 2, 1), (2, 2, 2, 0), (3, 2, 3, 1), (100, 8, 8, 0), (2, 2, 2, 2), (1, 2, 2, 3)];
    // terms: tag sets over b, "", ba and the never used z; time ranges
    let mut terms = vec![];
    for t in [1u8, 2, 3, 4, 5, 7, 1 | 32, 3 | 32, 32, 0] {
        for (a, b) in [(0, u64::MAX), (1, 1), (2, 3), (0, 2), (3, 9), (5, 1)] {
            terms.push((t, a, b));
        }
    }
    let single: Vec<Vec<(u8, u64, u64)>> = terms.iter().map(|t| vec![*t]).chain([vec![]]).collect();
    let mut dbl = vec![];
    for a in terms.iter().step_by(ctx.pick(3, 1)) {
        for b in terms.iter().step_by(ctx.pick(5, 1)) {
            dbl.push(vec![*a, *b]);
        }
    }
    let mut v = vec![];
    let alpha: Vec<En> = (1..8u8).flat_map(|t| [1u64, 2, 3].map(|x| (t, x))).collect();
    let small: Vec<En> = vec![(1, 1), (2, 3), (3, 2), (4, 1), (5, 3), (8 | 16, 2)];
    for a in &alpha {
        v.push(vec![*a]);
        for b in &alpha {
            v.push(vec![*a, *b]);
        }
    }
    let longest = ctx.pick(5, 6);
    let mut lists: Vec<Vec<En>> = vec![vec![]];
    for len in 1..=longest {
        lists = lists.iter().flat_map(|l| small.iter().map(move |s| { let mut l = l.clone(); l.push(*s); l })).collect();
        if len > 2 {
            v.extend(lists.iter().cloned());
        }
    }
    if !ctx.quick() {
        for a in &alpha {
            for b in &alpha {
                for c in &alpha {
                    v.push(vec![*a, *b, *c]);
                }
            }
        }
    }
    let cases: Vec<C24> = v
        .into_iter()
        .enumerate()
        .map(|(i, e)| {
            // the pairs of terms are spread over the streams
            let k = ctx.pick(12, 40);
            let mut q: Vec<_> = if e.len() <= 3 { single.clone() } else { single.iter().skip(i % 4).step_by(4).cloned().collect() };
            q.extend((0..k).map(|j| dbl[(i * k + j) % dbl.len()].clone()));
            C24 { entries: e, layouts: layouts.clone(), queries: q }
        })
        .collect();
    ctx.note("all streams of up to 2 entries over 21 (tags, time) pairs, all streams of 3..5 (6) entries over 6 pairs, in 7 layouts (leaf 1..100, bulk, single, unpacked, packed); all single terms for short streams, a quarter of them for longer ones, and pairs of terms in rotation over all streams".to_string());
    let r = ctx.par(&cases, check24);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("streams", cases.len() as u64);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ctx.states.fetch_max(cases.len() as u64 * layouts.len() as u64, SeqCst);
    ("model_checking", Value::Null)
}

// -------------------------------------------------------------------------------- P25

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum S {
    E(u32),
    U(u32),
    P,
    /// forget
    F(u8),
    /// close and open again
    Re,
    /// open again without closing
    Leak,
    /// raw block
    Raw(u8),
    /// sqlite snapshot of a big block
    Big(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C25 {
    ops: Vec<S>,
}
static NEXT: AtomicU64 = AtomicU64::new(0);
struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> R<Dir> {
        let base = if std::path::Path::new("/dev/shm").is_dir() { std::path::PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("verif-banyan-{}-{}", std::process::id(), NEXT.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&p).map_err(|e| e.to_string())?;
        Ok(Dir(p))
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn open25(d: &Dir) -> R<SqliteStore<DefaultParams>> {
    Ok(SqliteStore::new(BlockStore::open(d.0.join("db"), Default::default()).map_err(|e| e.to_string())?))
}
fn rawblk(i: u8) -> Vec<u8> {
    match i {
        0 => c_arr(&[]),
        1 => c_bytes(&noise(1, 300)),
        2 => c_arr(&[c_link(&Sha::of(b"nowhere")), c_uint(5)]),
        3 => vec![0xff, 0xff],
        4 => vec![],
        _ => c_map(&[(c_text("l"), c_link(&Sha::of(&rawblk(0))))]),
    }
}
fn ent25(i: u64) -> (Key, Val) {
    let s = [1u8, 2, 3, 5][(i % 4) as usize];
    (Key::single(i, 100 + i, tagset(s as u64)), Val(if i % 3 == 0 { c_link(&Sha::of(&i.to_be_bytes())) } else { c_bytes(&noise(i, 20)) }))
}
#[allow(unused_assignments)]
fn check25(c: &C25) -> R<u64> {
    let dir = Dir::new()?;
    let mut st = open25(&dir)?;
    let mut leaked = vec![];
    let ms = MemStore::new(usize::MAX, Sha256Digest::digest);
    let mut mt: Transaction<UT, MemStore<Sha256Digest>, MemStore<Sha256Digest>> = Transaction::new(Forest::new(ms.clone(), BranchCache::new(0)), ms.clone());
    let mut mb: StreamBuilder<UT, Val> = StreamBuilder::new(ucfg(2, 2, 2), useq());
    let mut tx = Transaction::new(Forest::<UT, _>::new(st.clone(), BranchCache::new(0)), st.clone());
    let mut b: StreamBuilder<UT, Val> = StreamBuilder::new(ucfg(2, 2, 2), useq());
    let mut known: BTreeMap<Sha256Digest, Vec<u8>> = BTreeMap::new();
    let mut next = 0;
    for op in &c.ops {
        match op {
            S::E(n) => {
                let v: Vec<_> = (next..next + *n as u64).map(ent25).collect();
                next += *n as u64;
                mt.extend(&mut mb, v.clone()).map_err(es)?;
                tx.extend(&mut b, v).map_err(es)?;
            }
            S::U(n) => {
                let v: Vec<_> = (next..next + *n as u64).map(ent25).collect();
                next += *n as u64;
                mt.extend_unpacked(&mut mb, v.clone()).map_err(es)?;
                tx.extend_unpacked(&mut b, v).map_err(es)?;
            }
            S::P => {
                mt.pack(&mut mb).map_err(es)?;
                tx.pack(&mut b).map_err(es)?;
            }
            S::F(t) => {
                let q = || DnfQuery(vec![Key::filter_tags(tagset(*t as u64))]).boxed();
                mt.retain(&mut mb, &q()).map_err(es)?;
                tx.retain(&mut b, &q()).map_err(es)?;
            }
            S::Re | S::Leak => {
                let root = b.link();
                let old = std::mem::replace(&mut tx, Transaction::new(Forest::new(st.clone(), BranchCache::new(0)), st.clone()));
                if *op == S::Leak {
                    leaked.push((old, st.clone()));
                } else {
                    drop(old);
                    // all handles have to go
                    drop(std::mem::replace(&mut tx, {
                        let x = SqliteStore::new(BlockStore::memory(Default::default()).map_err(|e| e.to_string())?);
                        st = x.clone();
                        Transaction::new(Forest::new(x.clone(), BranchCache::new(0)), x)
                    }));
                }
                st = open25(&dir)?;
                tx = Transaction::new(Forest::new(st.clone(), BranchCache::new(0)), st.clone());
                if let Some(l) = root {
                    b = tx.load_stream_builder(useq(), ucfg(2, 2, 2), l).map_err(es)?;
                    mb = mt.load_stream_builder(useq(), ucfg(2, 2, 2), l).map_err(es)?;
                }
            }
            S::Raw(i) => {
                let d = rawblk(*i);
                if let Ok(l) = st.clone().put(d.clone()) {
                    ck!(l == Sha256Digest::new(&d), "link");
                    known.insert(l, d);
                } else {
                    // not acceptable to the block store: must not be readable afterwards
                    ck!(*i == 3 || *i == 4, "block {} refused", i);
                }
            }
            S::Big(n) => {
                let d = c_bytes(&noise(9, *n as usize));
                if let Ok(l) = st.clone().put(d.clone()) {
                    known.insert(l, d);
                }
            }
        }
        ck!(b.link() == mb.link(), "after {:?}: root {:?}, on the memory store {:?}", op, b.link(), mb.link());
        // every block of the memory store's tree is there, identical
        if let (Some(l), _) = (mb.link(), 0) {
            let mut todo = vec![l];
            let mut seen = BTreeSet::new();
            while let Some(l) = todo.pop() {
                if !seen.insert(l) {
                    continue;
                }
                let d = ms.get(&l).map_err(es)?;
                for x in decode::raw(&d)?.links {
                    if let Ok(s) = decode::sha_of_cid(&x) {
                        let cid = s.cid();
                        if let Ok(u) = std::convert::TryInto::<Sha256Digest>::try_into(cid) {
                            if ms.get(&u).is_ok() {
                                todo.push(u);
                            }
                        }
                    }
                }
                known.insert(l, d.to_vec());
            }
        }
        for (l, d) in &known {
            match st.get(l) {
                Ok(x) => ck!(x[..] == d[..], "block {} differs", l),
                Err(e) => return Err(format!("block {} lost after {:?}: {}", l, op, e)),
            }
        }
        ck!(st.get(&Sha256Digest::new(b"unknown")).is_err(), "unknown link found");
        ck!(known.contains_key(&Sha256Digest::new(&rawblk(1))) || st.get(&Sha256Digest::new(&rawblk(1))).is_err(), "block that was never stored");
        let f: &Forest<UT, _> = &tx;
        let got: Vec<(u64, Key, Val)> = drain(f.iter_filtered(&b.snapshot(), AllQuery), 1 << 20)?;
        let mf: &Forest<UT, _> = &mt;
        let want: Vec<(u64, Key, Val)> = drain(mf.iter_filtered(&mb.snapshot(), AllQuery), 1 << 20)?;
        diff(&format!("after {:?}", op), &got, &want)?;
    }
    Ok(c.ops.len() as u64)
}
pub fn replay25(v: &Value) -> R<()> {
    let c: C25 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check25(&c).map(|_| ())
}
pub fn explore25(ctx: &Ctx) -> (&'static str, Value) {
    let alpha = [S::E(1), S::E(5), S::U(2), S::P, S::F(1), S::Re, S::Leak, S::Raw(1), S::Raw(2), S::Raw(5)];
    let mut lists: Vec<Vec<S>> = vec![vec![]];
    let mut v = vec![];
    for _ in 0..ctx.pick(4, 5) {
        lists = lists.iter().flat_map(|l| alpha.iter().map(move |s| { let mut l = l.clone(); l.push(*s); l })).collect();
        v.extend(lists.iter().cloned().map(|ops| C25 { ops }));
    }
    for i in 0..6 {
        for j in 0..6 {
            v.push(C25 { ops: vec![S::Raw(i), S::Raw(j), S::Re, S::Raw(i), S::E(3), S::Re] });
        }
    }
    for n in [10, 1000, 65536, 1_000_000, 1 << 20, (1 << 20) + 1, 5_000_000] {
        v.push(C25 { ops: vec![S::Big(n), S::Re, S::E(1), S::Leak] });
    }
    for k in 1..ctx.pick(12u32, 30) {
        v.push(C25 { ops: vec![S::E(k), S::Re, S::E(k), S::U(k), S::Re, S::P, S::Leak, S::F(2), S::Re, S::E(1), S::Re] });
    }
    // longest first
    v.reverse();
    ctx.note("all sequences of up to 4 (5) operations over append, unpacked append, pack, forget, reopen (after closing, and while still open), and raw puts; the same operations on the memory store as the reference; every known block re-read after every step".to_string());
    let r = ctx.par(&v, check25);
    let n: u64 = r.iter().flatten().sum();
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(v.len() as u64, SeqCst);
    ctx.states.fetch_max(v.len() as u64, SeqCst);
    ("model_checking", Value::Null)
}

// -------------------------------------------------------------------------------- P26

/// own traversal
struct Nd {
    sig: String,
    kids: Vec<Nd>,
    ix: Index<TT>,
}
fn nd(f: &F, ix: &Index<TT>) -> R<Nd> {
    let mut kids = vec![];
    let kind = match ix {
        Index::Leaf(l) => if l.link.is_some() { "leaf" } else { "purged leaf" },
        Index::Branch(b) => match b.link {
            Some(l) => {
                for k in banyan::index::BranchLoader::new(f, &secrets(), l).load().map_err(es)?.children.iter() {
                    kids.push(nd(f, k)?);
                }
                "branch"
            }
            None => "purged branch",
        },
    };
    Ok(Nd { sig: sig(kind, ix), kids, ix: ix.clone() })
}
fn sig(kind: &str, ix: &Index<TT>) -> String {
    format!("{} sealed={} count={} level={} link={:?}", kind, ix.sealed(), ix.count(), ix.level(), ix.link())
}
fn canon_nd(n: &Nd) -> String {
    let mut k: Vec<String> = n.kids.iter().map(canon_nd).collect();
    k.sort();
    format!("{}[{}]", n.sig, k.join(","))
}
fn canon_graph(edges: &[(usize, usize)], nodes: &BTreeMap<usize, String>, id: usize, depth: usize) -> R<String> {
    ck!(depth < 100, "cycle");
    let mut k = vec![];
    for (a, b) in edges {
        if *a == id {
            k.push(canon_graph(edges, nodes, *b, depth + 1)?);
        }
    }
    k.sort();
    Ok(format!("{}[{}]", nodes.get(&id).ok_or("edge to a missing node")?, k.join(",")))
}
fn size(n: &Nd) -> usize {
    1 + n.kids.iter().map(size).sum::<usize>()
}

/// node id -> attributes, edges
fn parse_dot(s: &str) -> R<(BTreeMap<String, (String, String, bool)>, Vec<(String, String)>)> {
    let mut nodes = BTreeMap::new();
    let mut edges = vec![];
    for l in s.lines() {
        let l = l.trim().trim_end_matches(';');
        if l.starts_with("digraph") || l == "}" || l.is_empty() {
            continue;
        }
        if let Some((a, b)) = l.split_once("->") {
            let b = b.split('[').next().unwrap();
            edges.push((a.trim().to_string(), b.trim().to_string()));
        } else if let Some((id, at)) = l.split_once('[') {
            let full = format!("[{}", at);
            let attr = |k: &str| full.split(&format!("[{}=\"", k)[..]).nth(1).map(|x| x.split('"').next().unwrap().to_string());
            let label = attr("label").ok_or_else(|| format!("no label in {}", l))?;
            let shape = attr("shape").unwrap_or_default();
            let filled = attr("style").map(|x| x.contains("filled")).unwrap_or(false) && attr("color").map(|x| x == "grey").unwrap_or(false);
            ck!(nodes.insert(id.trim().to_string(), (label, shape, filled)).is_none(), "node twice in dot output");
        } else {
            return Err(format!("unexpected line in dot output: {}", l));
        }
    }
    Ok((nodes, edges))
}

fn left(n: &Nd) -> Vec<&Nd> {
    let mut v = vec![n];
    let mut c = n;
    while let Some(k) = c.kids.first() {
        v.push(k);
        c = k;
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C26 {
    #[serde(flatten)]
    h: Hist,
}
fn check26(c: &C26) -> R<u64> {
    let w = World::run(&c.h)?;
    let t = w.tree();
    let repaired = c.h.ops.iter().any(|o| matches!(o, Op::Z(_)));
    let Some(root) = w.b.index() else { 
        ck!(w.cold(0).left_roots(&t).map_err(es)?.is_empty(), "left roots of an empty tree");
        ck!(w.cold(0).roots(&w.b).map_err(es)?.is_empty(), "roots of an empty tree");
        return Ok(0);
    };
    let mut n = 0;
    for cap in [0usize, 1 << 20] {
        let f = w.cold(cap);
        let own = nd(&f, root)?;
        for _round in 0..2 {
            // graph
            let (edges, nodes) = f
                .dump_graph(&t, |(_, i)| match i {
                    NodeInfo::Branch(i, _) => sig("branch", &Index::Branch(i.clone())),
                    NodeInfo::PurgedBranch(i) => sig("purged branch", &Index::Branch(i.clone())),
                    NodeInfo::Leaf(i, _) => sig("leaf", &Index::Leaf(i.clone())),
                    NodeInfo::PurgedLeaf(i) => sig("purged leaf", &Index::Leaf(i.clone())),
                })
                .map_err(es)?;
            ck!(nodes.len() == size(&own), "graph has {} nodes, the tree {}", nodes.len(), size(&own));
            ck!(edges.len() + 1 == nodes.len(), "graph has {} edges for {} nodes", edges.len(), nodes.len());
            let targets: BTreeSet<usize> = edges.iter().map(|x| x.1).collect();
            ck!(targets.len() == edges.len(), "a node has two parents");
            let roots: Vec<usize> = nodes.keys().copied().filter(|x| !targets.contains(x)).collect();
            ck!(roots.len() == 1, "graph has {} roots", roots.len());
            let g = canon_graph(&edges, &nodes, roots[0], 0)?;
            ck!(g == canon_nd(&own), "graph differs from tree:\n{}\n{}", g, canon_nd(&own));
            let (_, ids) = f.dump_graph(&t, |(id, _)| id).map_err(es)?;
            ck!(ids.iter().all(|(a, b)| a == b), "ids differ");
            // dot
            let mut out = vec![];
            banyan_utils::dump::graph(&f, &t, &mut out).map_err(es)?;
            let (dn, de) = parse_dot(&String::from_utf8(out).map_err(|e| e.to_string())?)?;
            ck!(dn.len() == nodes.len() && de.len() == edges.len(), "dot output: {} nodes {} edges", dn.len(), de.len());
            fn dot_canon(dn: &BTreeMap<String, (String, String, bool)>, de: &[(String, String)], id: &str) -> R<String> {
                let (label, shape, filled) = dn.get(id).ok_or("edge to missing node")?;
                let mut k = vec![];
                for (a, b) in de {
                    if a == id {
                        k.push(dot_canon(dn, de, b)?);
                    }
                }
                k.sort();
                let l = if shape == "box" { "" } else { label.as_str() };
                Ok(format!("{}/{}/{}[{}]", shape, filled, l, k.join(",")))
            }
            fn own_canon(n: &Nd) -> String {
                let mut k: Vec<String> = n.kids.iter().map(own_canon).collect();
                k.sort();
                match &n.ix {
                    Index::Leaf(l) => format!("circle/{}/{}[{}]", l.sealed, l.keys.len(), k.join(",")),
                    Index::Branch(l) => format!("box/{}/[{}]", l.sealed, k.join(",")),
                }
            }
            let droot: Vec<&String> = dn.keys().filter(|x| !de.iter().any(|e| e.1 == **x)).collect();
            ck!(droot.len() == 1, "dot output has {} roots", droot.len());
            let (a, b) = (dot_canon(&dn, &de, droot[0])?, own_canon(&own));
            ck!(a == b, "dot output differs: {} want {}", a, b);
            // leftmost
            let lr: Vec<Tree<TT, Val>> = f.left_roots(&t).map_err(es)?;
            let want = left(&own);
            ck!(lr.len() == want.len(), "{} left roots, want {}", lr.len(), want.len());
            let mut used: Vec<bool> = vec![false; want.len()];
            for x in &lr {
                let i = (0..want.len())
                    .find(|i| !used[*i] && want[*i].ix.count() == x.count() && want[*i].ix.level() as i32 == x.level() && want[*i].ix.link().as_ref() == x.link().as_ref())
                    .ok_or("left root that is not a leftmost node")?;
                used[i] = true;
                let k = x.count() as usize;
                let got = drain(f.iter_filtered(x, AllQuery), 1 << 20)?;
                let m: Vec<Trip> = there_upto(&w, k);
                let m: Vec<Trip> = if repaired { drain(f.iter_filtered(&t, AllQuery), 1 << 20)?.into_iter().filter(|x| x.0 < k as u64).collect() } else { m };
                diff(&format!("left root of {} entries", k), &got, &m)?;
                n += 1;
            }
            // roots
            let rs = f.roots(&w.b).map_err(es)?;
            let mut off = 0;
            for r in &rs {
                ck!(r.sealed(), "root listed that is not sealed");
                ck!(at(&own, 0, off, &sig_of(r)), "root at {} is not a subtree starting there", off);
                off += r.count();
            }
            ck!(off <= t.count(), "roots cover more than the tree");
            // nothing sealed is left out in a packed tree: what remains has no sealed leaf at its start
            if f.is_packed(&t).map_err(es)? && off < t.count() && !repaired {
                ck!(!sealed_at(&own, 0, off), "sealed node at {} is not listed", off);
            }
        }
        // block dumps
        if cap == 0 {
            n += dumps(&w, &own)?;
        }
    }
    Ok(n)
}
fn there_upto(w: &World, k: usize) -> Vec<Trip> {
    there(&w.model[..k.min(w.model.len())])
}
fn sig_of(ix: &Index<TT>) -> String {
    let kind = match (ix, ix.link().is_some()) {
        (Index::Leaf(_), true) => "leaf",
        (Index::Leaf(_), false) => "purged leaf",
        (_, true) => "branch",
        _ => "purged branch",
    };
    sig(kind, ix)
}
fn at(n: &Nd, start: u64, off: u64, s: &str) -> bool {
    if start == off && n.sig == s {
        return true;
    }
    let mut o = start;
    for k in &n.kids {
        if at(k, o, off, s) {
            return true;
        }
        o += k.ix.count();
    }
    false
}
fn sealed_at(n: &Nd, start: u64, off: u64) -> bool {
    if start == off && n.ix.sealed() {
        return true;
    }
    let mut o = start;
    for k in &n.kids {
        if sealed_at(k, o, off) {
            return true;
        }
        o += k.ix.count();
    }
    false
}
/// the dumps of all blocks of a tree
fn dumps(w: &World, n: &Nd) -> R<u64> {
    let mut c = 0;
    if let Some(l) = n.ix.link() {
        let sec = secrets();
        let key = match &n.ix {
            Index::Leaf(_) => sec.value_key(),
            _ => sec.index_key(),
        };
        let nonce = [0u8; 24].into();
        let block = w.store.raw(l).ok_or("block")?;
        let (_, plain) = decode::plain(&block, key.as_slice().try_into().map_err(|_| "key")?)?;
        let items = decode::split_items(&plain)?;
        let mut out = vec![];
        banyan_utils::dump::dump_json(w.store.clone(), *l, key, &nonce, &mut out).map_err(es)?;
        let out = String::from_utf8(out).map_err(|e| e.to_string())?;
        let lines: Vec<&str> = out.lines().collect();
        ck!(lines.len() == items.len() + 1, "json dump has {} lines for {} items", lines.len(), items.len());
        for (i, it) in items.iter().enumerate() {
            let v = decode::parse_all(it)?;
            let j: Value = serde_json::from_str(lines[i + 1]).map_err(|e| e.to_string())?;
            ck!(json_eq(&v[0], &j), "json dump of item {}: {} for {:?}", i, j, v[0]);
        }
        let mut out = vec![];
        banyan_utils::dump::dump_cbor(w.store.clone(), *l, key, &nonce, &mut out).map_err(es)?;
        let out = String::from_utf8(out).map_err(|e| e.to_string())?;
        let lines: Vec<&str> = out.lines().collect();
        ck!(lines.len() == items.len() + 1, "cbor dump has {} lines for {} items", lines.len(), items.len());
        for (i, it) in items.iter().enumerate() {
            // distinguishing part of the item: the number in it
            if let decode::Cb::U(x) = &decode::parse_all(it)?[0] {
                ck!(lines[i + 1] == x.to_string(), "cbor dump of item {}: {} want {}", i, lines[i + 1], x);
            }
        }
        c += 2;
    }
    for k in &n.kids {
        c += dumps(w, k)?;
    }
    Ok(c)
}
fn json_eq(c: &decode::Cb, j: &Value) -> bool {
    use decode::Cb;
    match (c, j) {
        (Cb::U(a), b) => b.as_u64() == Some(*a),
        (Cb::N(a), b) => b.as_i64() == Some(-1 - *a as i64),
        (Cb::T(a), Value::String(b)) => a == b,
        (Cb::A(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json_eq(a, b)),
        (Cb::M(a), Value::Object(b)) => {
            a.len() == b.len()
                && a.iter().all(|(k, v)| match k {
                    Cb::T(k) => b.get(k).map(|x| json_eq(v, x)).unwrap_or(false),
                    _ => false,
                })
        }
        (Cb::Tag(42, x), Value::Object(o)) => match (&**x, o.get("/")) {
            (Cb::B(b), Some(Value::String(s))) => libipld::Cid::try_from(&s[..]).map(|c| c.to_bytes() == b[1..]).unwrap_or(false),
            _ => false,
        },
        (Cb::B(_), Value::Object(o)) => o.contains_key("/"),
        (Cb::S(20), Value::Bool(false)) | (Cb::S(21), Value::Bool(true)) | (Cb::S(22), Value::Null) => true,
        _ => false,
    }
}
pub fn replay26(v: &Value) -> R<()> {
    let c: C26 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check26(&c).map(|_| ())
}
pub fn explore26(ctx: &Ctx) -> (&'static str, Value) {
    let mut v = vec![];
    for (l, k, s, kp) in [(2, 2, 2, 0), (1, 2, 2, 2), (3, 2, 3, 2), (2, 3, 2, 1)] {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        let a = vec![Op::E(1), Op::E(4), Op::E(9), Op::U(1), Op::U(3), Op::P, Op::F(Q::Std(2, 3, 0)), Op::F(Q::Key(1, 1))];
        for h in catalogue(ctx, sc, &Bfs { alphabet: a, depth: ctx.pick(4, 5), max_count: ctx.pick(18, 24) }) {
            if h.ops.len() <= 2 {
                for z in 0..4 {
                    v.push(C26 { h: h.with(Op::Z(z)) });
                }
            }
            v.push(C26 { h });
        }
    }
    v.extend(crate::shapes::trees(ctx, ctx.pick(2, 3), false).into_iter().map(|h| C26 { h }));
    ctx.note("graph, dot output, left roots, packed roots and block dumps of every explored history (packed, unpacked, forgotten, repaired), compared with an own traversal and an own decoding of the blocks".to_string());
    let r = ctx.par(&v, check26);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("trees", v.len() as u64);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ("model_checking", Value::Null)
}
