//! What is in the stored blocks, judged by an independent decoder.
//! P15 confidentiality and key separation, P16 links in the clear, P27 stored format
use crate::decode;
use crate::engine::*;
use crate::hist::*;
use crate::q::*;
use crate::reads::*;
use crate::store::*;
use crate::types::*;
use banyan::index::{CompactSeq, Index};
use banyan::store::BranchCache;
use banyan::{Forest, Secrets};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;

/// decode an index block / leaf block with the given key
pub fn as_branch(b: &[u8], key: &[u8; 32]) -> R<Vec<decode::Rec>> {
    let (_, p) = decode::plain(b, key)?;
    decode::parse_all(&p)?.iter().map(decode::rec).collect()
}
pub fn as_leaf(b: &[u8], key: &[u8; 32]) -> R<Vec<Vec<u8>>> {
    let (_, p) = decode::plain(b, key)?;
    decode::split_items(&p)
}

/// content of a stream, recovered without the library: root link + keys
pub fn recover(s: &LogStore, root: &Sha, ik: &[u8; 32], vk: &[u8; 32], out: &mut Vec<Ent>, reach: &mut BTreeSet<Sha>) -> R<()> {
    fn leaf(s: &LogStore, r: &decode::Rec, vk: &[u8; 32], out: &mut Vec<Ent>, reach: &mut BTreeSet<Sha>) -> R<()> {
        match &r.link {
            None => {
                for k in &r.keys {
                    out.push(Ent { k: K(*k), v: Val(vec![]), there: false });
                }
            }
            Some(l) => {
                reach.insert(*l);
                let raw = s.raw(l).ok_or("missing leaf")?;
                let items = as_leaf(&raw, vk)?;
                crate::ck!(items.len() == r.keys.len(), "leaf has {} values for {} keys", items.len(), r.keys.len());
                crate::ck!(decode::raw(&raw)?.payload.len() as u64 == r.value_bytes, "value_bytes {} is not the size of the payload", r.value_bytes);
                for (k, v) in r.keys.iter().zip(items) {
                    out.push(Ent { k: K(*k), v: Val(v), there: true });
                }
            }
        }
        Ok(())
    }
    reach.insert(*root);
    let raw = s.raw(root).ok_or_else(|| format!("missing branch {}", root))?;
    for r in as_branch(&raw, ik)? {
        if r.leaf {
            leaf(s, &r, vk, out, reach)?;
        } else {
            let n0 = out.len();
            match &r.link {
                None => {
                    for _ in 0..r.count {
                        out.push(Ent { k: K(u64::MAX), v: Val(vec![]), there: false });
                    }
                }
                Some(l) => recover(s, l, ik, vk, out, reach)?,
            }
            crate::ck!(out.len() as u64 - n0 as u64 == r.count, "record says {} elements, found {}", r.count, out.len() - n0);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- P27

fn check_format(w: &World) -> R<()> {
    let Some(link) = w.b.link() else { return Ok(()) };
    let mut got = vec![];
    recover(&w.store, &link, &IK, &VK, &mut got, &mut BTreeSet::new())?;
    crate::ck!(got.len() == w.model.len(), "independent decoder finds {} elements, want {}", got.len(), w.model.len());
    for (i, (g, m)) in got.iter().zip(w.model.iter()).enumerate() {
        crate::ck!(g.there == m.there, "offset {}: presence {} want {}", i, g.there, m.there);
        if m.there {
            crate::ck!(g == m, "offset {}: independent decoder gives {:?}, want {:?}", i, g, m);
        }
    }
    // records agree with what the library says about the nodes
    let root = load(&w.cold(0), w.b.index().unwrap(), 0)?;
    let mut err = None;
    root.visit(&mut |n| {
        if err.is_some() {
            return;
        }
        if let (Index::Branch(_), Some(l)) = (&n.index, n.index.link()) {
            let r = (|| -> R<()> {
                let recs = as_branch(&w.store.raw(l).ok_or("missing")?, &IK)?;
                crate::ck!(recs.len() == n.children.len(), "block {} has {} records, node {} children", l, recs.len(), n.children.len());
                for (r, c) in recs.iter().zip(&n.children) {
                    let x = &c.index;
                    crate::ck!(
                        r.sealed == x.sealed() && r.count == x.count() && r.value_bytes == x.value_bytes() && r.link == *x.link(),
                        "record {:?} differs from node {:?}",
                        r,
                        x
                    );
                    match x {
                        Index::Leaf(x) => crate::ck!(r.leaf && r.keys == x.keys.to_vec().iter().map(|k| k.0).collect::<Vec<_>>(), "keys of {:?}", r),
                        Index::Branch(x) => {
                            let s: Vec<_> = x.summaries.to_vec().iter().map(|k| (k.min, k.max, k.n)).collect();
                            crate::ck!(!r.leaf && r.level == x.level as u64 && r.key_bytes == x.key_bytes && r.summaries == s, "record {:?} differs from {:?}", r, x)
                        }
                    }
                }
                Ok(())
            })();
            err = r.err();
        }
    });
    err.map(Err).unwrap_or(Ok(()))
}

fn check27(h: &Hist) -> R<String> {
    let w = World::run(h)?;
    check_format(&w)?;
    // every block: three element array, ends where the payload ends, links are cids
    for (l, b) in w.store.with(|i| i.offered.clone()) {
        let r = decode::raw(&b)?;
        for c in &r.links {
            crate::ck!(!c.is_empty(), "empty link in {}", l);
        }
        match (as_branch(&b, &IK), as_leaf(&b, &VK)) {
            (Ok(v), _) if !v.is_empty() => {}
            (_, Ok(v)) if !v.is_empty() => {}
            _ => return Err(format!("block {} is neither a branch nor a leaf", l)),
        }
    }
    w.canon()
}

#[derive(Serialize, Deserialize)]
struct Golden {
    hist: Hist,
    root: String,
    blocks: Vec<String>,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn golden_hists() -> Vec<Hist> {
    let mut v = vec![];
    for (l, k, s, kp, vp) in [(2, 2, 2, 0, 0), (1, 2, 2, 2, 3), (3, 2, 3, 1, 1), (4, 3, 2, 3, 4), (2, 2, 4, 4, 2), (8, 4, 4, 0, 3), (5, 1, 2, 1, 5)] {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp).vp(vp);
        for ops in [
            vec![Op::E(1)],
            vec![Op::E(23)],
            vec![Op::U(3), Op::U(2), Op::U(1)],
            vec![Op::E(9), Op::U(4), Op::P, Op::E(2)],
            vec![Op::E(17), Op::P, Op::F(Q::Std(2, 7, 0))],
            vec![Op::E(17), Op::P, Op::F(Q::Key(1, 1)), Op::E(3)],
            vec![Op::N(5), Op::R, Op::U(6), Op::R, Op::E(0)],
            vec![Op::E(64), Op::F(Q::Std(1, 20, 33))],
        ] {
            v.push(Hist { sc, ops });
        }
    }
    v
}

/// writes the corpus; only ever used on the pinned version
pub fn write_golden(dir: &std::path::Path) {
    std::fs::create_dir_all(dir).unwrap();
    let all: Vec<Golden> = golden_hists()
        .into_iter()
        .filter_map(|h| {
            let w = World::run(&h).ok()?;
            let link = w.b.link()?;
            let mut reach = BTreeSet::new();
            recover(&w.store, &link, &IK, &VK, &mut vec![], &mut reach).unwrap();
            let blocks = reach.iter().map(|l| hex(&w.store.raw(l).unwrap())).collect();
            Some(Golden { hist: h, root: hex(&link.0), blocks })
        })
        .collect();
    std::fs::write(dir.join("corpus.json"), serde_json::to_string(&all).unwrap()).unwrap();
    println!("{} block sets", all.len());
}

#[derive(Serialize, Deserialize, Clone)]
struct C27 {
    golden: usize,
    then: Vec<Op>,
}

/// the content a history stands for, computed without the library (retain: see below)
fn plain_model(h: &Hist) -> Vec<Ent> {
    let mut next = 0;
    let mut m = vec![];
    for op in &h.ops {
        if let Op::E(n) | Op::U(n) | Op::N(n) = op {
            m.extend(ents(&items(&h.sc, &mut next, *n)));
        }
    }
    m
}

fn golden_world(g: &Golden) -> R<World> {
    let mut w = World::new(g.hist.sc);
    for b in &g.blocks {
        w.store.insert(&unhex(b));
    }
    let mut root = [0u8; 32];
    root.copy_from_slice(&unhex(&g.root));
    let root = Sha(root);
    // what is in there, by the independent decoder and by construction
    let mut got = vec![];
    recover(&w.store, &root, &IK, &VK, &mut got, &mut BTreeSet::new())?;
    let mut model = plain_model(&g.hist);
    crate::ck!(model.len() == got.len(), "corpus damaged");
    for (m, g) in model.iter_mut().zip(got) {
        m.there = g.there;
        crate::ck!(!g.there || *m == g, "corpus damaged");
    }
    w.next = model.len() as u64;
    w.model = model;
    let t: Tr = w.txn.load_tree(secrets(), root).map_err(es)?;
    content(&w.txn, &t, &w.model)?;
    w.b = w.txn.load_stream_builder(secrets(), g.hist.sc.cfg.config(), root).map_err(es)?;
    content(&w.txn, &w.tree(), &w.model)?;
    Ok(w)
}

fn check_golden(all: &[Golden], c: &C27) -> R<()> {
    let g = &all[c.golden];
    let mut w = golden_world(g)?;
    for op in &c.then {
        w.apply(op).map_err(|e| format!("{:?}: {}", op, e))?;
        content(&w.cold(0), &w.tree(), &w.model).map_err(|e| format!("after {:?}: {}", op, e))?;
    }
    check_format(&w)
}

fn corpus() -> Vec<Golden> {
    serde_json::from_str(include_str!("../golden/corpus.json")).expect("corpus")
}

pub fn replay27(v: &Value) -> R<()> {
    if v.get("golden").is_some() {
        let c: C27 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        return check_golden(&corpus(), &c);
    }
    let h: Hist = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check27(&h).map(|_| ())
}

fn alpha() -> Vec<Op> {
    vec![
        Op::E(1),
        Op::E(3),
        Op::E(7),
        Op::U(1),
        Op::U(4),
        Op::N(2),
        Op::P,
        Op::R,
        Op::F(Q::Std(2, 3, 0)),
        Op::F(Q::Key(1, 1)),
        Op::Rb(vec![Op::E(2), Op::P]),
    ]
}
const CFGS: [(usize, usize, usize, u8, u8); 6] = [(2, 2, 2, 0, 1), (1, 2, 2, 2, 3), (3, 2, 3, 1, 2), (1, 1, 2, 0, 3), (2, 3, 2, 3, 4), (4, 2, 2, 4, 5)];

/// explores histories, also ending in a repair
fn histories(ctx: &Ctx, sc: Sc, depth: usize, max: u64, f: impl Fn(&Hist) -> R<String> + Sync) {
    let p = Bfs { alphabet: alpha(), depth, max_count: max };
    let reps = bfs(ctx, sc, &p, &f);
    let mut z = vec![];
    for h in &reps {
        for i in [0, 1, 3, 6] {
            z.push(h.with(Op::Z(i)));
            z.push(h.with(Op::Z(i)).with(Op::F(Q::Std(2, 2, 0))));
        }
    }
    let r = ctx.par(&z, &f);
    ctx.transitions.fetch_add(r.iter().flatten().count() as u64, SeqCst);
    ctx.note(format!("{:?}: all histories of length <= {} over {} operations, then losing+repairing blocks", sc, depth, p.alphabet.len()));
}

pub fn explore27(ctx: &Ctx) -> (&'static str, Value) {
    for (l, k, s, kp, vp) in CFGS {
        histories(ctx, Sc::new(Cfg::new(l, k, s)).kp(kp).vp(vp), ctx.pick(4, 5), ctx.pick(14, 24), check27);
    }
    let all = corpus();
    let mut cases = vec![];
    for golden in 0..all.len() {
        for then in [
            vec![],
            vec![Op::E(1), Op::E(9)],
            vec![Op::U(3), Op::P],
            vec![Op::P, Op::E(4)],
            vec![Op::F(Q::Std(2, 3, 0)), Op::R],
            vec![Op::R, Op::N(3)],
        ] {
            // appending without packing to a pruned tree is done by extend itself
            cases.push(C27 { golden, then });
        }
    }
    ctx.count("corpus block sets x continuations", cases.len() as u64);
    ctx.par(&cases, |c| check_golden(&all, c));
    crate::shapes::each(ctx, &[Op::P, Op::R, Op::F(Q::Std(2, 40, 0))], ctx.pick(3, 4), true, check27);
    ctx.validated.store(ctx.evals.load(SeqCst), SeqCst);
    ("model_checking", Value::Null)
}

// ---------------------------------------------------------------------------------- P15

fn check15(h: &Hist) -> R<String> {
    let w = World::run(h)?;
    // 8 byte pieces of every key and value
    let needles: BTreeSet<u64> = (0..w.next)
        .flat_map(|i| {
            let v = value(h.sc.vp, i).0;
            [key(h.sc.kp, i).0.to_be_bytes().to_vec(), v[v.len().saturating_sub(8)..].to_vec()]
        })
        .filter(|n| n.len() >= 8)
        .map(|n| n[..8].iter().fold(0, |a, b| (a << 8) | *b as u64))
        .collect();
    for (l, b) in w.store.with(|i| i.offered.clone()) {
        let mut win = 0u64;
        for (i, x) in b.iter().enumerate() {
            win = (win << 8) | *x as u64;
            crate::ck!(i < 7 || !needles.contains(&win), "block {} contains plaintext {:016x}", l, win);
        }
        crate::ck!(decode::raw(&b).and_then(|r| decode::unzstd(&r.payload)).is_err(), "block {} is not encrypted", l);
        let ik = as_branch(&b, &IK).map(|x| !x.is_empty()).unwrap_or(false);
        let il = as_leaf(&b, &IK).map(|x| !x.is_empty()).unwrap_or(false);
        let vl = as_leaf(&b, &VK).map(|x| !x.is_empty()).unwrap_or(false);
        crate::ck!(ik == il, "block {} is a leaf encrypted with the index key", l);
        crate::ck!(il != vl, "block {}: readable with index key: {}, with value key: {}", l, il, vl);
        if vl {
            crate::ck!(as_branch(&b, &VK).is_err(), "block {} is a branch encrypted with the value key", l);
        }
    }
    // readers with wrong keys
    if let Some(link) = w.b.link() {
        let bad = [0x33u8; 32];
        let mut near_ik = IK;
        near_ik[31] ^= 1;
        let mut near_vk = VK;
        near_vk[0] ^= 0x80;
        for (n, (ik, vk)) in [(near_ik, VK), (VK, IK), (bad, bad)].into_iter().enumerate() {
            let f: F = Forest::new(w.store.clone(), BranchCache::new(1 << 20));
            let r = guard(|| Ok(f.load_tree::<Val>(Secrets::new(ik.into(), vk.into()), link)))?;
            crate::ck!(r.is_err(), "tree loads with wrong index key ({})", n);
        }
        let any = w.model.iter().any(|e| e.there);
        for (n, vk) in [near_vk, IK].into_iter().enumerate() {
            let f: F = Forest::new(w.store.clone(), BranchCache::new(1 << 20));
            let t: Tr = f.load_tree(Secrets::new(IK.into(), vk.into()), link).map_err(|e| format!("index needs the value key: {}", es(e)))?;
            crate::ck!(t.count() == w.model.len() as u64, "count");
            let a: Vec<_> = drain(f.iter_index(&t, Q::All.compile()), 10_000)?.iter().map(crate::p04::X::of).collect();
            let b: Vec<_> = drain(w.cold(0).iter_index(&w.tree(), Q::All.compile()), 10_000)?.iter().map(crate::p04::X::of).collect();
            // the root's own index is judged by the loader, not stored
            crate::ck!(a[1..] == b[1..] && a.len() == b.len(), "structure differs when read with a wrong value key");
            let step = (w.model.len() / 3).max(1);
            for (off, e) in w.model.iter().enumerate().step_by(step) {
                let r = guard(|| Ok(f.get(&t, off as u64)))?;
                match r {
                    Err(_) => crate::ck!(e.there, "get of forgotten element fails"),
                    Ok(None) => crate::ck!(!e.there, "get({}) with wrong value key {} reports absence", off, n),
                    Ok(Some(x)) => return Err(format!("get({}) with wrong value key {} gives {:?}", off, n, x)),
                }
            }
            let r = guard(|| Ok(f.collect(&t)))?;
            crate::ck!(r.is_err() == any, "collect with wrong value key {}: {:?}", n, r);
            let got: Vec<_> = f.iter_from(&t).take(1000).collect();
            crate::ck!(got.iter().all(|x| x.is_err()) && got.len() == any as usize, "iter_from with wrong value key {}: {:?}", n, got);
        }
    }
    w.canon()
}
pub fn replay15(v: &Value) -> R<()> {
    let h: Hist = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check15(&h).map(|_| ())
}
pub fn explore15(ctx: &Ctx) -> (&'static str, Value) {
    for (i, (l, k, s, kp, vp)) in [(2, 2, 2, 5, 1), (1, 2, 2, 5, 6), (3, 2, 3, 5, 1), (1, 1, 2, 5, 6), (4, 3, 2, 5, 7)].into_iter().enumerate() {
        histories(ctx, Sc::new(Cfg::new(l, k, s)).kp(kp).vp(vp), ctx.pick(if i < 2 { 4 } else { 3 }, 5), ctx.pick(14, 24), check15);
    }
    ctx.validated.store(ctx.evals.load(SeqCst), SeqCst);
    ("model_checking", Value::Null)
}

// ---------------------------------------------------------------------------------- P16

#[derive(Serialize, Deserialize, Clone)]
struct C16 {
    #[serde(flatten)]
    h: Hist,
    /// template of each element, in order (cycled)
    pat: Vec<u8>,
}

thread_local! {
    static PAT: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]);
}

pub const TEMPLATES: u8 = 18;
/// values with embedded links
pub fn linky(n: u64) -> Val {
    PAT.with(|p| {
        let p = p.borrow();
        if p.is_empty() {
            return Val(c_uint(n));
        }
        Val(template(p[n as usize % p.len()], n))
    })
}
fn lk(i: u64) -> Vec<u8> {
    c_link(&Sha::of(&i.to_be_bytes()))
}
fn cid_link(codec: u64, hash: u64, digest: &[u8]) -> Vec<u8> {
    let mut b = vec![0u8];
    b.extend(cid::Cid::new_v1(codec, multihash::Multihash::wrap(hash, digest).unwrap()).to_bytes());
    c_tag(42, c_bytes(&b))
}
fn template(t: u8, n: u64) -> Vec<u8> {
    let indef = |start: u8, items: &[Vec<u8>]| {
        let mut o = vec![start];
        for i in items {
            o.extend_from_slice(i);
        }
        o.push(0xff);
        o
    };
    match t {
        0 => c_uint(n),
        // the same link over and over
        1 => lk(0),
        // a fresh link each time
        2 => lk(n + 10),
        3 => c_arr(&[lk(n + 10), c_uint(1), lk(0)]),
        4 => c_map(&[(c_text("a"), lk(n + 20)), (c_text("b"), c_map(&[(c_text("c"), lk(1))]))]),
        // deep
        5 => {
            let mut v = lk(n + 30);
            for i in 0..9 {
                v = if i % 2 == 0 { c_arr(&[c_uint(3), v]) } else { c_map(&[(c_uint(i), v)]) };
            }
            v
        }
        6 => indef(0x9f, &[c_text("x"), lk(n + 40), c_arr(&[lk(2)])]),
        7 => indef(0xbf, &[c_text("x"), lk(n + 50), c_text("y"), c_arr(&[lk(n + 51), lk(n + 52)])]),
        // inside a tagged item
        8 => c_tag(99, c_arr(&[lk(n + 60)])),
        // looks like a link but is not tagged as one
        9 => {
            let l = lk(n + 70);
            l[2..].to_vec()
        }
        10 => c_text("bafy"),
        // many, unsorted, with repetitions
        11 => c_arr(&(0..7).map(|i| lk((i * 5) % 4 + n)).collect::<Vec<_>>()),
        // other multihash / codec
        12 => {
            let cid = cid::Cid::new_v1(0x55, multihash::Multihash::wrap(0x12, &[n as u8; 32]).unwrap());
            let mut b = vec![0u8];
            b.extend_from_slice(&cid.to_bytes());
            c_arr(&[c_tag(42, c_bytes(&b)), c_bytes(&[])])
        }
        // one hash under several codecs
        14 => c_arr(&[0x55u64, 0x70, 0x71].map(|c| cid_link(c, 0x12, &[5; 32]))),
        // the same hash, codec depends on the element
        15 => cid_link([0x71, 0x55, 0x0129][n as usize % 3], 0x12, &[6; 32]),
        // other hashes: long, short, inline data, none at all
        16 => c_arr(&[cid_link(0x71, 0x13, &[n as u8; 64]), cid_link(0x55, 0x11, &[n as u8; 20]), cid_link(0x55, 0, &noise(n, 40)), cid_link(0x55, 0, &[])]),
        // a version 0 cid
        17 => {
            let mut b = vec![0u8, 0x12, 0x20];
            b.extend([n as u8; 32]);
            c_arr(&[c_tag(42, c_bytes(&b))])
        }
        _ => c_map(&[(c_text("k"), c_arr(&[])), (c_text("l"), lk(n + 80)), (c_text("l"), lk(n + 81))]),
    }
}

/// links that count as such: tagged 42 and nothing else, as elements or map values
fn value_links(c: &decode::Cb, out: &mut BTreeSet<Vec<u8>>) {
    let mut v = vec![];
    decode::links_in(c, &mut v);
    out.extend(v);
}

fn run16(c: &C16) -> R<String> {
    let w = World::run(&c.h)?;
    for (l, b) in w.store.with(|i| i.offered.clone()) {
        let raw = decode::raw(&b)?;
        let clear: BTreeSet<Vec<u8>> = raw.links.iter().cloned().collect();
        crate::ck!(clear.len() == raw.links.len(), "block {}: duplicate clear links", l);
        let mut want = BTreeSet::new();
        let key = if as_branch(&b, &IK).is_ok() { &IK } else { &VK };
        let (_, p) = decode::plain(&b, key)?;
        for x in decode::parse_all(&p)? {
            value_links(&x, &mut want);
        }
        crate::ck!(clear == want, "block {} ({}): {} clear links, content has {}; only clear: {:?}; only content: {:?}", l, if key == &IK { "branch" } else { "leaf" }, clear.len(), want.len(),
            clear.difference(&want).map(|x| hex(&x[..6.min(x.len())])).collect::<Vec<_>>(), want.difference(&clear).map(|x| hex(&x[..6.min(x.len())])).collect::<Vec<_>>());
    }
    // someone without keys finds exactly the blocks of the tree
    if let Some(root) = w.b.link() {
        let mut keyless = BTreeSet::new();
        let mut todo = vec![root];
        while let Some(l) = todo.pop() {
            let Some(b) = w.store.raw(&l) else { continue };
            if keyless.insert(l) {
                for c in decode::raw(&b)?.links {
                    if let Ok(s) = decode::sha_of_cid(&c) {
                        todo.push(s);
                    }
                }
            }
        }
        let mut keyed = BTreeSet::new();
        recover(&w.store, &root, &IK, &VK, &mut vec![], &mut keyed)?;
        crate::ck!(keyless == keyed, "blocks reachable without keys: {:?}, with keys: {:?}", keyless, keyed);
    }
    w.canon()
}
fn check16(c: &C16) -> R<String> {
    PAT.with(|p| *p.borrow_mut() = c.pat.clone());
    let r = guard(|| run16(c));
    PAT.with(|p| p.borrow_mut().clear());
    r
}
pub fn replay16(v: &Value) -> R<()> {
    let c: C16 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check16(&c).map(|_| ())
}
pub fn explore16(ctx: &Ctx) -> (&'static str, Value) {
    let cfgs = [(2, 2, 2), (3, 2, 2), (4, 2, 3), (1, 2, 2)];
    // every pair (thorough: triple) of templates over histories that fill a leaf in 1, 2, 3 steps, pack, forget
    let mut pats: Vec<Vec<u8>> = vec![];
    for a in 0..TEMPLATES {
        for b in 0..TEMPLATES {
            pats.push(vec![a, b]);
            for c in 0..TEMPLATES {
                if !ctx.quick() || (a + 3 * b + 5 * c) % 3 == 0 {
                    pats.push(vec![a, b, c]);
                }
            }
        }
    }
    let hists = [
        vec![Op::E(1)],
        vec![Op::E(4)],
        vec![Op::E(1), Op::E(1), Op::E(1), Op::E(1)],
        vec![Op::E(2), Op::R, Op::E(1), Op::E(1)],
        vec![Op::U(1), Op::U(2), Op::P, Op::E(1)],
        vec![Op::N(3), Op::U(3)],
        vec![Op::E(9), Op::F(Q::Std(2, 5, 0))],
        vec![Op::E(3), Op::U(3), Op::P, Op::F(Q::Std(0, 2, 4)), Op::E(2)],
        vec![Op::E(9), Op::Z(1)],
        vec![Op::E(6), Op::F(Q::Key(1, 1)), Op::P, Op::E(3)],
        vec![Op::Rb(vec![Op::E(2)]), Op::E(3)],
    ];
    for (l, k, s) in cfgs {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(1).vp(9);
        let mut c = vec![];
        for ops in &hists {
            for pat in &pats {
                c.push(C16 { h: Hist { sc, ops: ops.clone() }, pat: pat.clone() });
            }
        }
        ctx.count("template x history", c.len() as u64);
        let r = ctx.par(&c, check16);
        ctx.transitions.fetch_add(3 * r.iter().flatten().count() as u64, SeqCst);
        // histories over a fixed colourful pattern
        let pat = vec![3, 7, 1, 11, 4, 5, 12, 6, 8, 2, 13];
        let pat2 = pat.clone();
        let p = Bfs { alphabet: alpha(), depth: ctx.pick(3, 4), max_count: 14 };
        let reps = bfs(ctx, sc, &p, |h| check16(&C16 { h: h.clone(), pat: pat2.clone() }));
        let mut c = vec![];
        for h in &reps {
            for i in [0, 2, 5] {
                c.push(C16 { h: h.with(Op::Z(i)), pat: pat.clone() });
            }
        }
        ctx.par(&c, check16);
    }
    ctx.note(format!("{} assignments of {} value templates (plain, repeated, nested, deep, indefinite, tagged, look-alike, many, other codecs of one hash, other hashes, version 0) x {} histories x 4 configurations; plus all histories up to the depth over a fixed assignment", pats.len(), TEMPLATES, hists.len()));
    ctx.validated.store(ctx.evals.load(SeqCst), SeqCst);
    ("model_checking", Value::Null)
}
