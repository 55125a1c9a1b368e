//! P21 stores and caches, P22 block codec
use crate::ck;
use crate::decode;
use crate::engine::*;
use crate::hist::*;
use crate::q::*;
use crate::reads::*;
use crate::store::*;
use crate::types::*;
use banyan::chacha20;
use banyan::query::AllQuery;
use banyan::store::{BlockWriter, BranchCache, MemCache, MemStore, ReadOnlyStore, ZstdDagCborSeq};
use banyan::{Forest, StreamBuilder, Transaction};
use libipld::Ipld;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::atomic::Ordering::SeqCst;
use weight_cache::Weighable;

// ------------------------------------------------------------------------------- P21

fn blk(i: u8) -> Vec<u8> {
    match i {
        0 => vec![],
        1 => vec![1],
        2 => vec![2, 2],
        3 => vec![3, 3, 3],
        4 => vec![2, 1],
        _ => noise(i as u64, i as usize),
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum O {
    Put(u8),
    /// put that the underlying store refuses
    PutF(u8),
    Offer(u8),
    Get(u8),
    Del(u8),
    Reset(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum C21 {
    Mem { limit: usize, ops: Vec<O> },
    Cache { max: usize, cap: usize, ops: Vec<O> },
    Branch { cap: usize, caps: Vec<usize>, ops: Vec<O> },
    Tree { h: Hist, caps: Vec<usize>, maxs: Vec<(usize, usize)> },
}

fn seqs_of(alpha: &[O], n: usize) -> Vec<Vec<O>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v
            .into_iter()
            .flat_map(|s: Vec<O>| {
                alpha.iter().map(move |o| {
                    let mut s = s.clone();
                    s.push(*o);
                    s
                })
            })
            .collect();
    }
    v
}

fn mem(limit: usize, ops: &[O]) -> R<()> {
    let a = MemStore::new(limit, |d: &[u8]| Sha::of(d));
    let b = a.clone();
    let mut m: BTreeMap<Sha, Vec<u8>> = BTreeMap::new();
    let mut cur = 0;
    for (i, o) in ops.iter().enumerate() {
        let mut h = if i % 2 == 0 { a.clone() } else { b.clone() };
        if let O::Put(i) = o {
            let d = blk(*i);
            let l = Sha::of(&d);
            let r = h.put(d.clone());
            if let Ok(x) = &r {
                ck!(*x == l, "put returns a wrong link");
            }
            if !m.contains_key(&l) {
                if cur + d.len() <= limit {
                    ck!(r.is_ok(), "{:?} refused with {} of {} used", d, cur, limit);
                    cur += d.len();
                    m.insert(l, d);
                } else {
                    ck!(r.is_err(), "{:?} accepted with {} of {} used", d, cur, limit);
                }
            }
        }
        for i in 0..8 {
            let d = blk(i);
            let l = Sha::of(&d);
            for s in [&a, &b] {
                match (s.get(&l), m.get(&l)) {
                    (Ok(x), Some(y)) => ck!(*x == y[..], "wrong content"),
                    (Err(_), None) => (),
                    (Ok(x), None) => return Err(format!("unknown link returns {:?}", x)),
                    (Err(e), Some(y)) => return Err(format!("stored block {:?} lost: {}", y, e)),
                }
            }
        }
    }
    drop(b);
    let all = a.into_inner().map_err(es)?;
    let got: BTreeMap<Sha, Vec<u8>> = all.into_iter().map(|(k, v)| (k, v.to_vec())).collect();
    ck!(got == m, "content differs at the end");
    ck!(got.values().map(|x| x.len()).sum::<usize>() <= limit, "limit exceeded");
    Ok(())
}

fn cache(max: usize, cap: usize, ops: &[O]) -> R<()> {
    let inner = LogStore::default();
    let c: MemCache<Sha, LogStore> = MemCache::new(inner.clone(), max, cap);
    let c2 = c.clone();
    // blocks that may be in the cache
    let mut may: BTreeSet<Sha> = BTreeSet::new();
    let mut size: BTreeMap<Sha, usize> = BTreeMap::new();
    let enabled = max > 0 && cap > 0;
    for (n, o) in ops.iter().enumerate() {
        let c = if n % 2 == 0 { &c } else { &c2 };
        match o {
            O::Put(i) | O::PutF(i) => {
                let d = blk(*i);
                let mut w = c.write(|s| Ok(s.clone())).map_err(es)?;
                let bad = matches!(o, O::PutF(_));
                if bad {
                    inner.arm(|i| i.fail_puts_from = Some(0));
                }
                let r = w.put(d.clone());
                if bad {
                    let missing = inner.raw(&Sha::of(&d)).is_none();
                    inner.disarm();
                    ck!(r.is_err(), "refused block reported as stored");
                    if missing && !may.contains(&Sha::of(&d)) {
                        ck!(c.get(&Sha::of(&d)).is_err(), "refused block can be read");
                    }
                } else {
                    ck!(r.map_err(es)? == Sha::of(&d), "put returns a wrong link");
                    ck!(inner.raw(&Sha::of(&d)).as_deref() == Some(&d[..]), "block not written through");
                    if enabled && d.len() <= max {
                        may.insert(Sha::of(&d));
                        size.insert(Sha::of(&d), d.len());
                    }
                }
            }
            O::Offer(i) => {
                let d = blk(*i);
                c.offer(&Sha::of(&d), &d);
                if enabled && d.len() <= max {
                    may.insert(Sha::of(&d));
                    size.insert(Sha::of(&d), d.len());
                }
            }
            O::Del(i) => {
                inner.with(|x| x.blocks.remove(&Sha::of(&blk(*i))));
            }
            _ => (),
        }
        // reading changes the order of use, so only every second step
        if let O::Get(i) = o {
            see(&c, &inner, &may, *i)?;
        }
    }
    for i in 0..7 {
        see(&c, &inner, &may, i)?;
    }
    // only what is in the cache
    inner.with(|x| x.blocks.clear());
    let mut sum = 0;
    for i in 0..7 {
        let r = c.get(&Sha::of(&blk(i)));
        if r.is_ok() {
            sum += blk(i).len();
        }
        see(&c, &inner, &may, i)?;
        if size.values().sum::<usize>() <= cap && may.contains(&Sha::of(&blk(i))) {
            ck!(r.is_ok(), "block {} not cached although there is room", i);
        }
    }
    ck!(sum <= cap, "{} bytes cached, capacity {}", sum, cap);
    Ok(())
}
fn see(c: &MemCache<Sha, LogStore>, inner: &LogStore, may: &BTreeSet<Sha>, i: u8) -> R<()> {
    let l = Sha::of(&blk(i));
    let there = inner.raw(&l).is_some();
    match c.get(&l) {
        Ok(d) => {
            ck!(*d == blk(i)[..], "wrong content for block {}: {:?}", i, d);
            ck!(there || may.contains(&l), "block {} is neither stored nor may be cached", i);
        }
        Err(_) => ck!(!there, "stored block {} can not be read", i),
    }
    Ok(())
}

type Br = banyan::index::Branch<TT>;

/// branches of different sizes
fn branches() -> R<Vec<(Sha, Br)>> {
    let mut out = vec![];
    for (k, n) in [(2, 4), (3, 9), (5, 20), (8, 8)] {
        let w = World::run(&Hist { sc: Sc::new(Cfg::new(1, k, k)), ops: vec![Op::E(n)] })?;
        let f = w.cold(0);
        for x in f.iter_index(&w.tree(), AllQuery) {
            let x = x.map_err(es)?;
            if let Some(l) = x.link() {
                out.push((*l, banyan::index::BranchLoader::new(&f, &secrets(), *l).load().map_err(es)?));
                break;
            }
        }
    }
    Ok(out)
}

thread_local!(static BR: Vec<(Sha, Br)> = branches().unwrap());

fn bsig(b: &Br) -> String {
    format!("{:?}", b)
}

fn branch(cap: usize, caps: &[usize], ops: &[O]) -> R<()> {
    let bs = BR.with(|b| b.clone());
    let c: BranchCache<TT> = BranchCache::new(cap);
    let c2 = c.clone();
    let enabled = cap > 0;
    let mut cap = cap;
    let mut put: BTreeSet<u8> = BTreeSet::new();
    for (n, o) in ops.iter().enumerate() {
        let c = if n % 2 == 0 { &c } else { &c2 };
        match o {
            O::Put(i) => {
                let (l, b) = &bs[*i as usize];
                c.put(*l, b.clone());
                if enabled {
                    put.insert(*i);
                }
            }
            O::Reset(i) => {
                let new = caps[*i as usize];
                c.reset(NonZeroUsize::new(new).unwrap());
                if enabled {
                    cap = new;
                }
                put.clear();
            }
            O::Get(i) => {
                let (l, b) = &bs[*i as usize];
                if let Some(g) = c.get(l) {
                    ck!(put.contains(i), "branch {} returned that was never put", i);
                    ck!(bsig(&g) == bsig(b), "wrong branch for {}", i);
                }
            }
            _ => (),
        }
    }
    let mut sum = 0;
    let all: usize = put.iter().map(|i| Br::measure(&bs[*i as usize].1)).sum();
    for (i, (l, b)) in bs.iter().enumerate() {
        match c.get(l) {
            Some(g) => {
                ck!(put.contains(&(i as u8)), "branch {} returned that was never put", i);
                ck!(bsig(&g) == bsig(b), "wrong branch for {}", i);
                sum += Br::measure(&g);
            }
            None => ck!(all > cap || !put.contains(&(i as u8)), "branch {} not cached although there is room", i),
        }
    }
    ck!(sum <= cap, "weight {} over capacity {}", sum, cap);
    Ok(())
}

fn collect<S: ReadOnlyStore<Sha>>(f: &Forest<TT, S>, t: &Tr) -> R<Vec<String>> {
    let mut out = vec![];
    let n = t.count();
    for q in [Q::All, Q::Key(1, 1), Q::Std(2, n / 2, 0)] {
        for x in drain(f.iter_filtered_chunked(t, q.compile(), &|_| ()), 1 << 20)? {
            out.push(format!("{:?} {:?}", x.range, x.data));
        }
        for x in drain(f.iter_filtered_chunked_reverse(t, q.compile(), &|_| ()), 1 << 20)? {
            out.push(format!("{:?} {:?}", x.range, x.data));
        }
        for x in drain(f.iter_filtered(t, q.compile()), 1 << 20)? {
            out.push(format!("{:?}", x));
        }
        for x in drain(f.iter_index(t, q.compile()), 1 << 20)? {
            out.push(format!("{:?}", x));
        }
    }
    for o in 0..n + 1 {
        out.push(format!("{:?}", f.get(t, o).map_err(es)?));
    }
    Ok(out)
}

/// caches must not change what is read or written
fn tree(h: &Hist, caps: &[usize], maxs: &[(usize, usize)]) -> R<u64> {
    let mut n = 0;
    // reference: no caches
    let mut sc = h.sc;
    sc.cache = 0;
    let mut w = World::new(sc);
    let mut snaps = vec![];
    for op in &h.ops {
        w.apply(op)?;
        snaps.push(w.tree());
    }
    let plain = w.cold(0);
    let want: Vec<Vec<String>> = snaps.iter().map(|t| collect(&plain, t)).collect::<R<_>>()?;
    let log = w.store.with(|i| i.log.clone());
    for cap in caps {
        for (max, mc) in maxs {
            // reading all snapshots twice through shared caches, offering the blocks first or not
            for offer in [false, true] {
                let c = MemCache::new(w.store.clone(), *max, *mc);
                if offer {
                    for (l, d) in w.store.with(|i| i.blocks.clone()) {
                        c.offer(&l, &d);
                    }
                }
                let f = Forest::<TT, _>::new(c, BranchCache::new(*cap));
                for round in 0..2 {
                    for (i, t) in snaps.iter().enumerate() {
                        diff(&format!("snapshot {} round {} caches {}/{}/{}", i, round, cap, max, mc), &collect(&f, t)?, &want[i])?;
                        n += 1;
                    }
                }
            }
            // writing through the cache
            let store = LogStore::default();
            let c = MemCache::new(store.clone(), *max, *mc);
            let wr = c.write(|s| Ok(s.clone())).map_err(es)?;
            let mut txn = Transaction::new(Forest::<TT, _>::new(c.clone(), BranchCache::new(*cap)), wr);
            let mut b: StreamBuilder<TT, Val> = StreamBuilder::new(sc.cfg.config(), secrets());
            let mut next = 0;
            for (i, op) in h.ops.iter().enumerate() {
                match op {
                    Op::E(k) => txn.extend(&mut b, items(&sc, &mut next, *k)).map_err(es)?,
                    Op::U(k) => txn.extend_unpacked(&mut b, items(&sc, &mut next, *k)).map_err(es)?,
                    Op::P => txn.pack(&mut b).map_err(es)?,
                    Op::F(q) => txn.retain(&mut b, &q.compile()).map_err(es)?,
                    _ => return Err("unsupported op".into()),
                }
                ck!(b.link() == snaps[i].link(), "caches {}/{}/{}: root differs after {:?}", cap, max, mc, op);
            }
            ck!(store.with(|i| i.log.clone()) == log, "caches {}/{}/{}: other blocks written", cap, max, mc);
            let f: &Forest<TT, _> = &txn;
            diff("read after write", &collect(f, &b.snapshot())?, want.last().unwrap_or(&vec![]))?;
            n += 1;
        }
    }
    Ok(n)
}

fn check21(c: &C21) -> R<u64> {
    match c {
        C21::Mem { limit, ops } => mem(*limit, ops).map(|_| 1),
        C21::Cache { max, cap, ops } => cache(*max, *cap, ops).map(|_| 1),
        C21::Branch { cap, caps, ops } => branch(*cap, caps, ops).map(|_| 1),
        C21::Tree { h, caps, maxs } => tree(h, caps, maxs),
    }
}
pub fn replay21(v: &Value) -> R<()> {
    let c: C21 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check21(&c).map(|_| ())
}
pub fn explore21(ctx: &Ctx) -> (&'static str, Value) {
    let mut v = vec![];
    let puts: Vec<O> = (0..5).map(O::Put).collect();
    for len in 1..=ctx.pick(6, 7) {
        for ops in seqs_of(&puts, len) {
            for limit in [0, 1, 2, 3, 4, 5, 6, 7, 8, 100] {
                v.push(C21::Mem { limit, ops: ops.clone() });
            }
        }
    }
    let mut alpha = vec![];
    for i in [1, 2, 3] {
        alpha.extend([O::Put(i), O::Offer(i), O::Get(i), O::Del(i)]);
    }
    alpha.push(O::PutF(2));
    alpha.push(O::Offer(0));
    alpha.push(O::PutF(0));
    alpha.push(O::Put(4));
    for ops in seqs_of(&alpha, 4) {
        for max in [0, 1, 2, 100] {
            for cap in [0, 1, 2, 3, 5, 100] {
                v.push(C21::Cache { max, cap, ops: ops.clone() });
            }
        }
    }
    let w: Vec<usize> = BR.with(|b| b.iter().map(|x| Br::measure(&x.1)).collect());
    let caps = vec![1, w[0] - 1, w[0], w[1], w[0] + w[1] - 1, w[0] + w[1], w.iter().sum(), 1 << 20];
    let mut alpha = vec![O::Reset(2), O::Reset(5)];
    for i in 0..4 {
        alpha.extend([O::Put(i), O::Get(i)]);
    }
    for len in 1..=ctx.pick(5, 6) {
        for ops in seqs_of(&alpha, len) {
            for cap in std::iter::once(0).chain(caps.iter().copied()) {
                v.push(C21::Branch { cap, caps: caps.clone(), ops: ops.clone() });
            }
        }
    }
    for (l, k, s, kp) in [(2, 2, 2, 2), (1, 3, 3, 1), (3, 2, 3, 2)] {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        let a = vec![Op::E(1), Op::E(4), Op::E(9), Op::U(3), Op::P, Op::F(Q::Key(1, 1)), Op::F(Q::Std(2, 3, 0))];
        for h in catalogue(ctx, sc, &Bfs { alphabet: a, depth: ctx.pick(2, 3), max_count: ctx.pick(14, 16) }) {
            if !h.ops.is_empty() {
                v.push(C21::Tree { h, caps: vec![0, 1, w[0], w[0] + w[1], 3 * w[1], 1 << 20], maxs: vec![(0, 0), (100, 1000), (220, 1), (220, 700), (1000, 1 << 20)] });
            }
        }
    }
    ctx.note("MemStore: all put sequences over 5 blocks (0..3 bytes) x 10 limits, all links read through two handles after each step. MemCache: all sequences of put/offer/get/delete/refused put over 3-5 blocks x 24 (max_size, capacity) pairs. BranchCache: all sequences of put/get/reset over 4 branches x 9 capacities chosen around the branch weights. Trees: every explored history read and written through 30 cache combinations".to_string());
    let r = ctx.par(&v, check21);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("runs", n);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ctx.states.fetch_max(v.len() as u64, SeqCst);
    ("model_checking", Value::Null)
}

// ------------------------------------------------------------------------------- P22

fn item(i: u8) -> Val {
    Val(match i {
        0 => c_uint(7),
        1 => c_uint(70_000),
        2 => c_bytes(&[]),
        3 => c_bytes(&noise(3, 40)),
        4 => c_text(&"ab".repeat(150)),
        5 => c_link(&Sha::of(b"one")),
        6 => c_map(&[(c_text("l"), c_arr(&[c_link(&Sha::of(b"two")), c_link(&Sha::of(b"one"))]))]),
        7 => c_arr(&[]),
        8 => vec![0xf6],
        // not links: other tags, nested tags
        9 => c_tag(43, c_bytes(&[0, 1])),
        10 => vec![0x9f, 0x01, 0xff],
        11 => vec![0xfb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0],
        _ => c_bytes(&noise(i as u64, 70_000)),
    })
}
const ITEMS: u8 = 12;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum C22 {
    Round { items: Vec<u8>, z: i32 },
    Crypt { items: Vec<u8>, offsets: Vec<u64> },
    Fill { items: Vec<u8>, cut: u8, unc: usize, comp: usize, keys: usize, z: i32 },
    Big { sizes: Vec<usize>, seed: u64 },
    BigFill { sizes: Vec<usize>, comp: usize, unc: usize },
    Damage { items: Vec<u8>, xor: u8 },
    Raw { bytes: Vec<u8>, lo: u32, hi: u32 },
    Outer { name: String, sig: String },
}

fn vals(i: &[u8]) -> Vec<Val> {
    i.iter().map(|x| item(*x)).collect()
}
fn links_of(v: &[Val]) -> R<Vec<Vec<u8>>> {
    let mut l = vec![];
    for x in v {
        for c in decode::parse_all(&x.0)? {
            decode::links_in(&c, &mut l);
        }
    }
    l.sort();
    l.dedup();
    Ok(l)
}
fn nonce() -> chacha20::XNonce {
    *chacha20::XNonce::from_slice(decode_nonce())
}
fn decode_nonce() -> &'static [u8] {
    &[0u8; 24]
}
fn ckey(k: u8) -> chacha20::Key {
    chacha20::Key::from([k; 32])
}

/// everything that can be read from a sequence
fn same(z: &ZstdDagCborSeq, v: &[Val], masks: bool) -> R<()> {
    ck!(z.count().map_err(es)? == v.len() as u64, "count {:?} want {}", z.count(), v.len());
    let got: Vec<Val> = z.items().map_err(es)?;
    diff("items", &got, v)?;
    for i in 0..v.len() as u64 + 2 {
        let g: Option<Val> = z.get(i).map_err(es)?;
        ck!(g.as_ref() == v.get(i as usize), "get {}: {:?} want {:?}", i, g, v.get(i as usize));
    }
    let g: Option<Val> = z.get(u64::MAX).map_err(es)?;
    ck!(g.is_none(), "get of max");
    let n = v.len();
    if masks {
        for len in 0..=n + 1 {
            for m in 0..1u32 << len {
                let mask: Vec<bool> = (0..len).map(|i| m >> i & 1 == 1).collect();
                let want: Vec<Val> = (0..len.min(n)).filter(|i| mask[*i]).map(|i| v[i].clone()).collect();
                let got: Vec<Val> = z.select(&mask).map_err(es)?;
                diff(&format!("select {:?}", mask), &got, &want)?;
            }
        }
    }
    Ok(())
}

fn round(v: &[Val], z: i32) -> R<()> {
    let s = ZstdDagCborSeq::from_iter(v.iter(), z).map_err(es)?;
    same(&s, v, true)?;
    if v.len() == 1 {
        let s = ZstdDagCborSeq::single(&v[0], z).map_err(es)?;
        same(&s, v, true)?;
    }
    // what an independent decoder sees
    let enc = s.encrypt(&ckey(5), &nonce(), 1000).map_err(es)?;
    let raw = decode::raw(&enc)?;
    ck!(raw.offset == 1000, "offset");
    let want = links_of(v)?;
    let got: Vec<Vec<u8>> = raw.links.clone();
    ck!(got.len() == want.len() && got.iter().collect::<BTreeSet<_>>() == want.iter().collect(), "links {:?} want {:?}", got.len(), want.len());
    let plain = decode::unzstd(&decode::crypt(&[5; 32], 1000, &raw.payload))?;
    let flat: Vec<u8> = v.iter().flat_map(|x| x.0.clone()).collect();
    ck!(plain == flat, "plain bytes differ");
    // the ipld variants
    let ip: Vec<Ipld> = v
        .iter()
        .filter_map(|x| {
            use libipld::codec::Codec;
            libipld::cbor::DagCborCodec.decode::<Ipld>(&x.0).ok()
        })
        .collect();
    let s = ZstdDagCborSeq::from_iter_ipld(ip.iter(), z).map_err(es)?;
    let got: Vec<Ipld> = s.items_ipld().map_err(es)?;
    ck!(got == ip, "ipld items differ: {:?} want {:?}", got, ip);
    ck!(s.count().map_err(es)? == ip.len() as u64, "ipld count");
    if ip.len() == 1 {
        let s = ZstdDagCborSeq::single_ipld(&ip[0], z).map_err(es)?;
        ck!(s.items_ipld::<Ipld>().map_err(es)? == ip, "single ipld");
    }
    // filling with ipld values
    let mut keys = vec![];
    let mut it = ip.iter().cloned().enumerate().peekable();
    let (s2, full) = ZstdDagCborSeq::fill_ipld(&[], &mut it, &mut keys, z, BIG, BIG, ip.len() + 1).map_err(es)?;
    ck!(!full && it.peek().is_none() && keys == (0..ip.len()).collect::<Vec<_>>(), "fill_ipld keys {:?}", keys);
    ck!(s2.items_ipld::<Ipld>().map_err(es)? == ip, "fill_ipld items");
    if ip.len() > 1 {
        for cut in 0..ip.len() {
            let mut keys = vec![];
            let mut it = ip.iter().cloned().enumerate().peekable();
            let (a, full) = ZstdDagCborSeq::fill_ipld(&[], &mut it, &mut keys, z, BIG, BIG, cut).map_err(es)?;
            ck!(full && keys.len() == cut && it.peek().map(|x| x.0) == Some(cut), "fill_ipld step: {} {:?}", full, keys);
            let (b, full) = ZstdDagCborSeq::fill_ipld(a.compressed(), &mut it, &mut keys, z, BIG, BIG, ip.len()).map_err(es)?;
            ck!(full && it.peek().is_none() && keys == (0..ip.len()).collect::<Vec<_>>(), "fill_ipld second step");
            ck!(b.items_ipld::<Ipld>().map_err(es)? == ip, "fill_ipld second step items");
        }
    }
    Ok(())
}

fn crypt(v: &[Val], offs: &[u64]) -> R<u64> {
    let s = ZstdDagCborSeq::from_iter(v.iter(), 3).map_err(es)?;
    let len = s.compressed().len() as u64;
    let mut n = 0;
    let n2 = *chacha20::XNonce::from_slice(b"another nonce, same len!");
    for o in offs {
        for d in [0, len, len - 1, len + 1] {
            let o = o.saturating_sub(d);
            if o.checked_add(len).is_none() {
                continue;
            }
            for (k, non) in [(1u8, nonce()), (9, nonce()), (1, n2)] {
                let e = s.encrypt(&ckey(k), &non, o).map_err(es)?;
                let (t, r) = ZstdDagCborSeq::decrypt(&e, &ckey(k), &non).map_err(es)?;
                ck!(r == (o..o + len), "range {:?} want {:?}", r, o..o + len);
                same(&t, v, false)?;
                // keystream position by another route
                if non == nonce() {
                    let raw = decode::raw(&e)?;
                    ck!(raw.offset == o, "recorded offset");
                    // the independent stream cipher starts at the offset
                    ck!(decode::crypt(&[k; 32], o, &raw.payload) == s.compressed(), "cipher text differs at {}", o);
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

/// the same items as ipld values
impl libipld::codec::Encode<libipld::cbor::DagCborCodec> for Val {
    fn encode<W: std::io::Write>(&self, _c: libipld::cbor::DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        Ok(w.write_all(&self.0)?)
    }
}
/// several fill steps: the source is cut after `cut` items, later steps continue with the rest;
/// once with cbor values and once with ipld values
fn fill(v: &[Val], cut: usize, unc: usize, comp: usize, maxk: usize, z: i32) -> R<()> {
    fill1(v, cut, unc, comp, maxk, z, false)?;
    fill1(v, cut, unc, comp, maxk, z, true).map_err(|e| format!("fill_ipld: {}", e))
}
#[allow(clippy::too_many_arguments)]
fn do_fill<I: Iterator<Item = (usize, Val)>>(ipld: bool, c: &[u8], it: &mut std::iter::Peekable<I>, k: &mut Vec<usize>, z: i32, comp: usize, unc: usize, maxk: usize) -> anyhow::Result<(ZstdDagCborSeq, bool)> {
    if ipld {
        ZstdDagCborSeq::fill_ipld(c, it, k, z, comp, unc, maxk)
    } else {
        ZstdDagCborSeq::fill(c, it, k, z, comp, unc, maxk)
    }
}
fn fill1(v: &[Val], cut: usize, unc: usize, comp: usize, maxk: usize, z: i32, ipld: bool) -> R<()> {
    let mut comp_bytes: Vec<u8> = vec![];
    let mut keys: Vec<usize> = vec![];
    let mut have: Vec<Val> = vec![];
    for (lo, hi) in [(0, cut), (cut, v.len())] {
        let mut it = v[lo..hi].iter().cloned().enumerate().map(|(i, x)| (i + lo, x)).peekable();
        loop {
            let before = have.len();
            let size0: usize = have.iter().map(|x| x.0.len()).sum();
            let pending: Vec<usize> = it.clone().map(|x| x.0).collect();
            let mut k2 = keys.clone();
            let r = do_fill(ipld, &comp_bytes, &mut it, &mut k2, z, comp, unc, maxk);
            let left: Vec<usize> = it.clone().map(|x| x.0).collect();
            let taken = pending.len() - left.len();
            ck!(pending[taken..] == left[..], "source out of order");
            let (s, full) = match r {
                Ok(x) => x,
                Err(_) => {
                    // refused: the next one alone is too large and is still there
                    let i = *left.first().ok_or("fill fails on an exhausted source")?;
                    ck!(v[i].0.len() > unc, "item {} of {} bytes refused with limit {}", i, v[i].0.len(), unc);
                    ck!(keys.len() + taken < maxk, "refused although full");
                    return Ok(());
                }
            };
            keys.extend(&pending[..taken]);
            ck!(k2 == keys, "keys {:?} want {:?}", k2, keys);
            have.extend(pending[..taken].iter().map(|i| v[*i].clone()));
            same(&s, &have, false)?;
            ck!(sorted(links_enc(&s)?) == links_of(&have)?, "links differ after fill");
            let size: usize = have.iter().map(|x| x.0.len()).sum();
            ck!(size <= unc || taken == 0, "uncompressed limit exceeded");
            ck!(keys.len() <= maxk || taken == 0, "element limit exceeded");
            ck!(size0 <= unc || taken == 0, "taken although over the limit");
            let next = left.first().map(|i| v[*i].0.len());
            let fits_not = next.map(|n| size + n > unc).unwrap_or(false);
            let lim = s.compressed().len() >= comp || keys.len() >= maxk || size >= unc;
            ck!(full == (lim || (fits_not && keys.len() < maxk)), "full={} but size {} of {}, compressed {} of {}, keys {} of {}, next {:?}", full, size, unc, s.compressed().len(), comp, keys.len(), maxk, next);
            if let Some(n) = next {
                ck!(full, "stops although not full");
                ck!(n <= unc || keys.len() >= maxk || s.compressed().len() >= comp, "too large item not refused");
            }
            // must have taken as much as possible (the compressed size is only known in coarse steps here)
            if comp == BIG && taken < pending.len() {
                ck!(keys.len() >= maxk || fits_not, "stops too early");
            }
            if comp < BIG && keys.len() - taken < maxk && !pending.is_empty() && size0 + v[pending[0]].0.len() <= unc {
                ck!(taken > 0, "nothing taken although there is room");
            }
            comp_bytes = s.compressed().to_vec();
            if left.is_empty() || full && (taken == 0 || have.len() == before) {
                break;
            }
            if full {
                break;
            }
        }
        if it.peek().is_some() {
            break;
        }
    }
    // once more with nothing
    let mut none = std::iter::empty::<(usize, Val)>().peekable();
    let mut k2 = keys.clone();
    if !comp_bytes.is_empty() {
        let (s, full) = do_fill(ipld, &comp_bytes, &mut none, &mut k2, z, comp, unc, maxk).map_err(es)?;
        same(&s, &have, false)?;
        let size: usize = have.iter().map(|x| x.0.len()).sum();
        ck!(full == (s.compressed().len() >= comp || keys.len() >= maxk || size >= unc), "full of an empty fill");
    }
    Ok(())
}
fn sorted(mut v: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    v.sort();
    v
}
fn links_enc(s: &ZstdDagCborSeq) -> R<Vec<Vec<u8>>> {
    Ok(decode::raw(&s.encrypt(&ckey(1), &nonce(), 0).map_err(es)?)?.links)
}

fn big_items(sizes: &[usize], seed: u64) -> Vec<Val> {
    sizes
        .iter()
        .enumerate()
        .map(|(i, n)| {
            // exact encoded size n
            let h = if *n <= 24 { 1 } else if *n <= 257 { 2 } else if *n <= 65538 { 3 } else { 5 };
            Val(c_bytes(&if (seed + i as u64) % 2 == 0 { noise(i as u64, n - h) } else { vec![i as u8; n - h] }))
        })
        .collect()
}
fn big(sizes: &[usize], seed: u64) -> R<()> {
    let v = big_items(sizes, seed);
    let total: usize = sizes.iter().sum();
    if total > 16 << 20 {
        return over(&v);
    }
    let s = ZstdDagCborSeq::from_iter(v.iter(), 1).map_err(es)?;
    same(&s, &v, false)?;
    let e = s.encrypt(&ckey(1), &nonce(), 77).map_err(es)?;
    let (t, _) = ZstdDagCborSeq::decrypt(&e, &ckey(1), &nonce()).map_err(es)?;
    same(&t, &v, false)?;
    let total: usize = v.iter().map(|x| x.0.len()).sum();
    // stepwise
    for ipld in [false, true] {
    let mut keys = vec![];
    let mut comp = vec![];
    for (i, x) in v.iter().enumerate() {
        let mut it = std::iter::once((i, x.clone())).peekable();
        let (s, full) = do_fill(ipld, &comp, &mut it, &mut keys, 1, usize::MAX, total, 1000).map_err(es)?;
        ck!(it.peek().is_none(), "item {} not taken", i);
        ck!(full == (i + 1 == v.len()), "full={} at item {}", full, i);
        same(&s, &v[..=i], false)?;
        comp = s.compressed().to_vec();
    }
    }
    let s = ZstdDagCborSeq::from_iter(v[..1].iter(), 1).map_err(es)?;
    same(&s, &v[..1], false)?;
    Ok(())
}
/// more than can be decompressed again: refused, or at least readable
fn over(v: &[Val]) -> R<()> {
    if let Ok(s) = ZstdDagCborSeq::from_iter(v.iter(), 1) {
        same(&s, v, false)?;
    }
    if let Ok(s) = ZstdDagCborSeq::from_iter_ipld(v.iter(), 1) {
        same(&s, v, false)?;
    }
    if v.len() == 1 {
        if let Ok(s) = ZstdDagCborSeq::single(&v[0], 1) {
            same(&s, v, false)?;
        }
        if let Ok(s) = ZstdDagCborSeq::single_ipld(&v[0], 1) {
            same(&s, v, false)?;
        }
    }
    for ipld in [false, true] {
        let mut keys = vec![];
        let mut it = v.iter().cloned().enumerate().peekable();
        if let Ok((s, _)) = do_fill(ipld, &[], &mut it, &mut keys, 1, BIG, BIG, 1000) {
            let n = keys.len();
            ck!(keys == (0..n).collect::<Vec<_>>() && it.peek().map(|x| x.0) == v.get(n).map(|_| n), "keys");
            same(&s, &v[..n], false)?;
            // continue with the rest
            let r = do_fill(ipld, s.compressed(), &mut it, &mut keys, 1, BIG, BIG, 1000);
            if let Ok((s, _)) = r {
                let n = keys.len();
                ck!(keys == (0..n).collect::<Vec<_>>() && it.peek().map(|x| x.0) == v.get(n).map(|_| n), "keys");
                same(&s, &v[..n], false)?;
            }
        }
    }
    Ok(())
}
/// compressed size limit with large incompressible items
fn big_fill(sizes: &[usize], comp: usize, unc: usize) -> R<()> {
    big_fill1(sizes, comp, unc, false)?;
    big_fill1(sizes, comp, unc, true)
}
fn big_fill1(sizes: &[usize], comp: usize, unc: usize, ipld: bool) -> R<()> {
    let v: Vec<Val> = sizes.iter().enumerate().map(|(i, n)| Val(c_bytes(&noise(i as u64 + 5, *n)))).collect();
    let mut it = v.iter().cloned().enumerate().peekable();
    let mut keys = vec![];
    let (s, full) = do_fill(ipld, &[], &mut it, &mut keys, 1, comp, unc, 1 << 20).map_err(es)?;
    let n = keys.len();
    same(&s, &v[..n], false)?;
    ck!(keys == (0..n).collect::<Vec<_>>() && it.peek().map(|x| x.0) == v.get(n).map(|_| n), "keys");
    let size: usize = v[..n].iter().map(|x| x.0.len()).sum();
    let nofit = v.get(n).map(|x| size + x.0.len() > unc).unwrap_or(false);
    let lim = s.compressed().len() >= comp;
    ck!(full == (lim || nofit || size >= unc), "full={} compressed {} of {} size {} of {}", full, s.compressed().len(), comp, size, unc);
    if n < v.len() {
        ck!(lim || nofit, "stops early");
    }
    // the encoder works in blocks of 128 kB and buffers some of them
    if let Some(last) = v[..n].last() {
        let before = size - last.0.len();
        ck!(before < comp + 4 * 131_072, "{} bytes taken with a compressed size limit of {}", before, comp);
    }
    Ok(())
}

/// whatever happens, no panic; returns whether everything could be decoded
fn poke(e: &[u8], k: &chacha20::Key) -> bool {
    match ZstdDagCborSeq::decrypt(e, k, &nonce()) {
        Err(_) => false,
        Ok((s, r)) => {
            // the keystream range that the block claims to have used covers exactly its payload
            let n = s.compressed().len() as u64;
            assert!(r.start.checked_add(n) == Some(r.end), "a block of {} bytes decoded with the keystream range {:?}", n, r);
            poke_seq(&s)
        }
    }
}
fn poke_seq(s: &ZstdDagCborSeq) -> bool {
    let a = s.items::<Val>();
    let c = s.count();
    let _ = s.items_ipld::<Ipld>();
    let _ = s.get::<Val>(1);
    let _ = s.select::<Val>(&[false, true, true]);
    let _ = s.items::<u64>();
    let _ = s.encrypt(&ckey(1), &nonce(), 5);
    let mut keys = vec![];
    let mut it = std::iter::once((0, item(1))).peekable();
    let _ = ZstdDagCborSeq::fill(s.compressed(), &mut it, &mut keys, 1, 1000, 1000, 10);
    if let (Ok(a), Ok(c)) = (&a, &c) {
        return a.len() as u64 == *c;
    }
    false
}

fn damage(v: &[Val], x: u8) -> R<u64> {
    let s = ZstdDagCborSeq::from_iter(v.iter(), 3).map_err(es)?;
    let e = s.encrypt(&ckey(1), &nonce(), 300).map_err(es)?;
    let mut n = 0;
    for i in 0..e.len() {
        if x == 0 {
            // truncation: the block can not be complete
            ck!(!poke(&e[..i], &ckey(1)), "truncated to {} of {} bytes, but decoded", i, e.len());
            let mut b = e.clone();
            b.insert(i, 0);
            poke(&b, &ckey(1));
            let mut b = e.clone();
            b.remove(i);
            poke(&b, &ckey(1));
        } else {
            let mut b = e.clone();
            b[i] ^= x;
            poke(&b, &ckey(1));
        }
        n += 1;
    }
    // truncated compressed data, truncated plain data
    if x == 0 {
        let flat: Vec<u8> = v.iter().flat_map(|x| x.0.clone()).collect();
        let mut edges = vec![0];
        for i in v {
            edges.push(edges.last().unwrap() + i.0.len());
        }
        // (no bytes at all are a valid empty sequence)
        for i in 1..s.compressed().len() {
            let b = outer(0, &[], &decode::crypt(&[1; 32], 0, &s.compressed()[..i]));
            if poke(&b, &ckey(1)) {
                return Err(format!("compressed data truncated to {} of {} bytes, but decoded", i, s.compressed().len()));
            }
            n += 1;
        }
        for i in 0..=flat.len() {
            let z = zstd::encode_all(&flat[..i], 1).map_err(|e| e.to_string())?;
            let b = outer(0, &[], &decode::crypt(&[1; 32], 0, &z));
            let ok = poke(&b, &ckey(1));
            ck!(ok == edges.contains(&i), "plain data truncated to {} of {} bytes: decoded={}", i, flat.len(), ok);
            n += 1;
        }
    }
    Ok(n)
}
fn outer(off: u64, links: &[Vec<u8>], data: &[u8]) -> Vec<u8> {
    c_arr(&[c_uint(off), c_arr(links), c_bytes(data)])
}

/// arbitrary short byte strings as decompressed content and as whole block
fn raw(prefix: &[u8], lo: u32, hi: u32) -> R<u64> {
    for x in lo..hi {
        let mut b = prefix.to_vec();
        b.extend(&(x as u16).to_be_bytes());
        for cut in [b.len(), b.len() - 1] {
            let z = zstd::encode_all(&b[..cut], 1).map_err(|e| e.to_string())?;
            let ok = poke(&outer(0, &[], &decode::crypt(&[1; 32], 0, &z)), &ckey(1));
            if ok {
                // must really be well formed
                decode::parse_all(&b[..cut]).map_err(|e| format!("{:?} accepted: {}", &b[..cut], e))?;
            }
            poke(&b[..cut], &ckey(1));
            // (expensive, since the decompressor clears 16 MB for each)
            if x % 32 == 5 {
                poke(&outer(0, &[], &b[..cut]), &ckey(1));
            }
        }
    }
    Ok((hi - lo) as u64)
}

/// malformed outer records
fn outers(name: &str) -> Option<Vec<u8>> {
    let link = c_link(&Sha::of(b"x"));
    let z = zstd::encode_all(&[1u8, 2, 3][..], 1).unwrap();
    let mut huge_arr = vec![0x83, 0x00, 0x9b];
    huge_arr.extend([0xff; 8]);
    let mut huge_bytes = vec![0x83, 0x00, 0x80, 0x5b];
    huge_bytes.extend([0xff; 8]);
    let mut big_arr = vec![0x83, 0x00, 0x9b];
    big_arr.extend((1u64 << 33).to_be_bytes());
    let mut big_bytes = vec![0x83, 0x00, 0x80, 0x5b];
    big_bytes.extend((1u64 << 40).to_be_bytes());
    let deep = |lead: &[u8], b: u8, n: usize, end: &[u8]| {
        let mut v = lead.to_vec();
        v.extend(std::iter::repeat(b).take(n));
        v.extend(end);
        v
    };
    let bomb = zstd::encode_all(&vec![0u8; 40 << 20][..], 1).unwrap();
    let key = [1u8; 32];
    let inner = |plain: Vec<u8>| outer(0, &[], &decode::crypt(&key, 0, &zstd::encode_all(&plain[..], 1).unwrap()));
    Some(match name {
        "empty" => vec![],
        "two" => c_arr(&[c_uint(0), c_arr(&[])]),
        "four" => c_arr(&[c_uint(0), c_arr(&[]), c_bytes(&z), c_uint(1)]),
        "negative offset" => c_arr(&[vec![0x20], c_arr(&[]), c_bytes(&z)]),
        "text data" => c_arr(&[c_uint(0), c_arr(&[]), c_text("abc")]),
        "null data" => c_arr(&[c_uint(0), c_arr(&[]), vec![0xf6]]),
        "list data" => c_arr(&[c_uint(0), c_arr(&[]), c_arr(&[c_uint(1)])]),
        "link data" => c_arr(&[c_uint(0), c_arr(&[]), link.clone()]),
        "links no list" => c_arr(&[c_uint(0), link.clone(), c_bytes(&z)]),
        "links ints" => c_arr(&[c_uint(0), c_arr(&[c_uint(3)]), c_bytes(&z)]),
        "link tag empty" => c_arr(&[c_uint(0), c_arr(&[c_tag(42, c_bytes(&[]))]), c_bytes(&z)]),
        "link tag short" => c_arr(&[c_uint(0), c_arr(&[c_tag(42, c_bytes(&[0]))]), c_bytes(&z)]),
        "link tag garbage" => c_arr(&[c_uint(0), c_arr(&[c_tag(42, c_bytes(&[0, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255]))]), c_bytes(&z)]),
        "link tag text" => c_arr(&[c_uint(0), c_arr(&[c_tag(42, c_text("x"))]), c_bytes(&z)]),
        "empty data" => outer(0, &[], &[]),
        "wrap" => outer(u64::MAX, &[], &z),
        "wrap exact" => outer(u64::MAX - z.len() as u64, &[], &z),
        "wrap one" => outer(u64::MAX - z.len() as u64 + 1, &[], &z),
        "huge array" => huge_arr,
        "huge bytes" => huge_bytes,
        "big array" => big_arr,
        "big bytes" => big_bytes,
        "deep array" => deep(&[0x83, 0, 0x80], 0x81, 2_000_000, &[0]),
        "deep tag" => deep(&[0x83, 0, 0x80], 0xc1, 2_000_000, &[0]),
        "deep map" => deep(&[0x83, 0, 0x80], 0xa1, 2_000_000, &[0]),
        "deep links" => deep(&[0x83, 0], 0x81, 2_000_000, &[0]),
        "deep all" => deep(&[], 0x81, 2_000_000, &[0]),
        "indefinite" => vec![0x9f, 0x00, 0x9f, 0xff, 0x5f, 0x41, 0x01, 0xff, 0xff],
        "bomb" => outer(0, &[], &decode::crypt(&key, 0, &bomb)),
        "inner deep array" => inner(deep(&[], 0x81, 2_000_000, &[0])),
        "inner deep indefinite array" => inner(deep(&[], 0x9f, 2_000_000, &[])),
        "inner deep map" => inner(deep(&[], 0xa1, 2_000_000, &[0])),
        "inner deep tag" => inner(deep(&[], 0xc1, 2_000_000, &[0])),
        "inner huge bytes" => inner(vec![0x5b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
        "inner huge array" => inner(vec![0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
        "inner huge map" => inner(vec![0xbb, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
        "inner big array" => inner(vec![0x9b, 0, 0, 0, 1, 0, 0, 0, 0]),
        "inner bad link" => inner(c_tag(42, c_bytes(&[]))),
        "inner bad link 2" => inner(c_tag(42, c_bytes(&[0]))),
        "inner bad link 3" => inner(c_tag(42, c_bytes(&[0, 1, 0x71, 0x12, 0xff, 0xff, 0xff, 0xff, 0x0f]))),
        "inner many tags" => inner(deep(&[], 0xd8, 1_000_001, &[0])),
        "garbage frame" => outer(0, &[], &decode::crypt(&key, 0, &[0x28, 0xb5, 0x2f, 0xfd, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff])),
        "skippable frame" => outer(0, &[], &decode::crypt(&key, 0, &[0x50, 0x2a, 0x4d, 0x18, 4, 0, 0, 0, 1, 2, 3, 4])),
        "two frames" => {
            let mut x = z.clone();
            x.extend(&z);
            outer(0, &[], &decode::crypt(&key, 0, &x))
        }
        _ => return None,
    })
}
const OUTERS: &[&str] = &[
    "empty", "two", "four", "negative offset", "text data", "null data", "list data", "link data", "links no list", "links ints", "link tag empty", "link tag short",
    "link tag garbage", "link tag text", "empty data", "wrap", "wrap exact", "wrap one", "huge array", "huge bytes", "big array", "big bytes", "deep array", "deep tag", "deep map",
    "deep links", "deep all", "indefinite", "bomb", "inner deep array", "inner deep indefinite array", "inner deep map", "inner deep tag", "inner huge bytes", "inner huge array",
    "inner huge map", "inner big array", "inner bad link", "inner bad link 2", "inner bad link 3", "inner many tags", "garbage frame", "skippable frame", "two frames",
];
/// those that can not be decoded, whatever the reader
const MUST_FAIL: &[&str] = &[
    "empty", "two", "negative offset", "text data", "null data", "list data", "link data", "links no list", "links ints", "wrap", "wrap one", "huge array", "huge bytes", "big array",
    "big bytes", "deep array", "deep tag", "deep map", "deep links", "deep all", "bomb", "inner huge bytes", "inner huge array", "inner huge map", "inner big array", "garbage frame",
];

fn check22(c: &C22) -> R<u64> {
    match c {
        C22::Round { items, z } => round(&vals(items), *z).map(|_| 1),
        C22::Crypt { items, offsets } => crypt(&vals(items), offsets),
        C22::Fill { items, cut, unc, comp, keys, z } => fill(&vals(items), *cut as usize, *unc, *comp, *keys, *z).map(|_| 1),
        C22::Big { sizes, seed } => big(sizes, *seed).map(|_| 1),
        C22::BigFill { sizes, comp, unc } => big_fill(sizes, *comp, *unc).map(|_| 1),
        C22::Damage { items, xor } => damage(&vals(items), *xor),
        C22::Raw { bytes, lo, hi } => raw(bytes, *lo, *hi),
        C22::Outer { name, .. } => {
            // in a process of its own, it may die
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let out = std::process::Command::new(exe).args(["poke", name]).output().map_err(|e| e.to_string())?;
            let ok = match out.status.code() {
                Some(0) => false,
                Some(10) => true,
                _ => return Err(format!("decoding {}: process died: {} {}", name, out.status, String::from_utf8_lossy(&out.stderr).trim())),
            };
            ck!(!ok || !MUST_FAIL.contains(&name.as_str()), "{} is accepted", name);
            Ok(1)
        }
    }
}
/// pokes one malformed block on a thread with an ordinary stack
pub fn poke_main(name: &str) -> i32 {
    let Some(b) = outers(name) else { return 2 };
    let ok = std::thread::Builder::new().stack_size(2 << 20).spawn(move || poke(&b, &ckey(1))).unwrap().join();
    match ok {
        Ok(false) => 0,
        Ok(true) => 10,
        Err(_) => 3,
    }
}
pub fn replay22(v: &Value) -> R<()> {
    let c: C22 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check22(&c).map(|_| ())
}
fn tuples(n: u8, len: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v
            .into_iter()
            .flat_map(|s: Vec<u8>| {
                (0..n).map(move |i| {
                    let mut s = s.clone();
                    s.push(i);
                    s
                })
            })
            .collect();
    }
    v
}
pub fn explore22(ctx: &Ctx) -> (&'static str, Value) {
    let mut v = vec![];
    for name in OUTERS {
        v.push(C22::Outer { name: name.to_string(), sig: name.replace(' ', "-") });
    }
    for len in 0..=ctx.pick(3, 4) {
        for items in tuples(ITEMS, len) {
            v.push(C22::Round { items, z: [1, 3, 10][len % 3] });
        }
    }
    v.push(C22::Round { items: (0..ITEMS).collect(), z: 19 });
    let offs: Vec<u64> = {
        let mut o = vec![0, 1, 63, 64, 65, 127, 128, 4095, 4096];
        for b in [16, 31, 32, 33, 37, 38, 39, 40, 48, 62, 63] {
            o.extend([(1u64 << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 64]);
        }
        o.extend([u64::MAX, u64::MAX - 1, u64::MAX - 64]);
        o
    };
    for items in [vec![], vec![0], vec![3], vec![3, 3, 4], vec![3, 5, 3, 6, 3, 1], vec![12]] {
        v.push(C22::Crypt { items, offsets: offs.clone() });
    }
    for len in 0..=ctx.pick(3, 4) {
        for items in tuples(5, len).into_iter().chain(if len == 3 { tuples(3, 5) } else { vec![] }) {
            let items: Vec<u8> = items.iter().map(|i| [0, 5, 2, 6, 4][*i as usize]).collect();
            let sizes: Vec<usize> = vals(&items).iter().map(|x| x.0.len()).collect();
            let mut sums: BTreeSet<usize> = BTreeSet::new();
            let mut s = 0;
            for x in &sizes {
                s += x;
                sums.extend([s - 1, s, s + 1]);
            }
            sums.extend(sizes.iter().map(|x| x - 1));
            sums.remove(&0);
            sums.insert(BIG);
            for cut in 0..=items.len() {
                for unc in &sums {
                    for (comp, keys) in [(BIG, 1000), (BIG, items.len()), (BIG, 1), (BIG, 2), (BIG, 0), (1, 1000), (20, 1000), (60, 3)] {
                        if (keys != 1000 || comp != BIG) && *unc != BIG && *unc != s && cut != 1 {
                            continue;
                        }
                        v.push(C22::Fill { items: items.clone(), cut: cut as u8, unc: *unc, comp, keys, z: 1 });
                    }
                }
            }
        }
    }
    let m = 1usize << 20;
    for s in [
        vec![4 * m - 1, 1],
        vec![4 * m],
        vec![4 * m + 1],
        vec![4 * m - 2, 2, 2],
        vec![2 * m, 2 * m, 1, 5 * m],
        vec![8 * m, 8 * m],
        vec![16 * m],
        vec![16 * m - 1, 1],
        vec![15 * m, m - 3, 3],
        vec![16 * m + 1],
        vec![8 * m, 8 * m, 1],
        vec![1, 16 * m],
        vec![15 * m, m - 3, 4, 5],
        vec![20 * m],
        vec![131_072, 131_072, 131_071, 1, 300],
        vec![65535, 65536, 65537, 65538, 65539],
    ] {
        for seed in 0..2 {
            v.push(C22::Big { sizes: s.clone(), seed });
        }
    }
    for n in [1000, 20_000, 70_000, 131_069, 200_000, 500_000] {
        for comp in [1, 1000, 100_000, 131_072, 400_000, 1_000_000] {
            for unc in [600_000, 3_000_000] {
                v.push(C22::BigFill { sizes: vec![n; 3_000_000 / n + 3], comp, unc });
            }
        }
    }
    for items in [vec![], vec![0], vec![0, 1, 2], vec![5], vec![6, 3, 0], vec![3, 3], vec![4, 10, 11, 9, 8], vec![7, 6, 5]] {
        for xor in [0u8, 1, 2, 4, 8, 16, 32, 64, 128, 255] {
            if !ctx.quick() || [0, 1, 32, 128, 255].contains(&xor) {
                v.push(C22::Damage { items: items.clone(), xor });
            }
        }
    }
    let step = 512;
    for p in [vec![], vec![0x82], vec![0xd8], vec![0xd8, 42], vec![0x5f], vec![0xa1]] {
        if ctx.quick() && p.len() == 1 && p[0] != 0xd8 {
            continue;
        }
        for lo in (0..65536).step_by(step) {
            v.push(C22::Raw { bytes: p.clone(), lo, hi: lo + step as u32 });
        }
    }
    ctx.note("all item sequences over 12 item kinds up to the depth (round trip, count, every index, every mask up to one longer than the sequence, ipld variants); keystream offsets around every power-of-two boundary; fill over all sequences of 5 sizes, cut at every point, with uncompressed limits around every partial sum and element/compressed limits; items at the 4 MB buffer and 16 MB boundaries; all truncations, single-byte insertions/removals and bit flips of encoded blocks; all 2-byte contents behind several prefixes; malformed outer and inner records".to_string());
    let r = ctx.par(&v, check22);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("runs", n);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ctx.states.fetch_max(v.len() as u64, SeqCst);
    let _ = json!(null);
    ("model_checking", Value::Null)
}
