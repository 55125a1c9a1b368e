//! P28 unusable blocks
use crate::ck;
use crate::decode;
use crate::engine::*;
use crate::hist::*;
use crate::p10::*;
use crate::q::*;
use crate::types::*;
use banyan::store::ZstdDagCborSeq;
use banyan::Secrets;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C28 {
    #[serde(flatten)]
    h: Hist,
    /// 0 all unusable replacements and wrong keys, 1 decodable ones without or with other content
    kind: u8,
}
fn other_keys() -> Vec<Secrets> {
    let s = secrets();
    let z: banyan::chacha20::Key = [0x5a; 32].into();
    vec![
        Secrets::new(z, *s.value_key()),
        Secrets::new(*s.index_key(), z),
        Secrets::new(z, z),
        Secrets::new(*s.value_key(), *s.index_key()),
    ]
}
/// encrypted block with the given plain data instead of a compressed sequence
fn block(key: &[u8; 32], offset: u64, data: &[u8]) -> Vec<u8> {
    c_arr(&[c_uint(offset), c_arr(&[]), c_bytes(&decode::crypt(key, offset, data))])
}
fn seq(items: &[Vec<u8>]) -> Vec<u8> {
    let vals: Vec<Val> = items.iter().map(|x| Val(x.clone())).collect();
    ZstdDagCborSeq::from_iter(&vals, 3).expect("encode").compressed().to_vec()
}
/// replacements that can not be decoded as a node
fn unusable(b: &[u8], leaf: bool) -> Vec<(String, Vec<u8>)> {
    let key = if leaf { VK } else { IK };
    let other = if leaf { IK } else { VK };
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for k in 0..b.len() {
        if k < 40 || k + 40 > b.len() || k % 7 == 0 {
            v.push((format!("cut to {}", k), b[..k].to_vec()));
        }
    }
    v.push(("not cbor".into(), vec![0xff; 20]));
    v.push(("other cbor".into(), c_uint(7)));
    v.push(("map".into(), c_map(&[(c_text("a"), c_uint(1))])));
    v.push(("four elements".into(), c_arr(&[c_uint(0), c_arr(&[]), c_bytes(&[1]), c_uint(0)])));
    v.push(("text payload".into(), c_arr(&[c_uint(0), c_arr(&[]), c_text("x")])));
    v.push(("payload is no compressed data".into(), block(&key, 5, &[0u8; 40])));
    v.push(("wrapping offset".into(), block(&key, u64::MAX - 3, &[1u8; 40])));
    v.push(("unfinished item".into(), block(&key, 0, &seq_raw(&[0x82, 0x01]))));
    if let Ok((r, _)) = decode::plain(b, &key) {
        // encrypted with another key
        let d = decode::crypt(&key, r.offset, &r.payload);
        v.push(("other key".into(), c_arr(&[c_uint(r.offset), c_arr(&[]), c_bytes(&decode::crypt(&other, r.offset, &d))])));
        // cut inside the encrypted part
        for k in [0usize, 1, 4, 5, r.payload.len() / 2, r.payload.len() - 1] {
            if k < r.payload.len() && k > 0 {
                v.push((format!("payload cut to {}", k), c_arr(&[c_uint(r.offset), c_arr(&[]), c_bytes(&r.payload[..k])])));
            }
        }
    }
    if !leaf {
        v.push(("items that are no nodes".into(), block(&key, 0, &seq(&[c_uint(1), c_uint(2)]))));
        v.push(("items that are no nodes".into(), block(&key, 0, &seq(&[c_map(&[(c_text("a"), c_uint(1))])]))));
    }
    v
}
fn seq_raw(b: &[u8]) -> Vec<u8> {
    zstd::encode_all(b, 3).expect("zstd")
}
/// replacements that can be decoded but are not what belongs there
fn odd(w: &World, b: &[u8], leaf: bool) -> Vec<(String, Vec<u8>)> {
    let key = if leaf { VK } else { IK };
    let mut v = vec![];
    v.push(("no items".to_string(), block(&key, 0, &seq(&[]))));
    v.push(("no data".to_string(), block(&key, 0, &[])));
    // a leaf in place of a branch; any two other blocks may be decodable as each other, and a store that
    // mixes up such blocks is not a content-addressed store
    for l in w.store.links() {
        if let Some(o) = w.store.raw(&l) {
            if o[..] == *b {
                continue;
            }
            if let (false, Ok((r, p))) = (leaf, decode::plain(&o, &VK)) {
                if decode::parse_all(&p).is_ok() {
                    v.push((format!("content of leaf {}", l), block(&IK, r.offset, &decode::crypt(&VK, r.offset, &r.payload))));
                    v.push((format!("leaf {}", l), o.to_vec()));
                }
            }
        }
    }
    v
}
const MUT: usize = 7;
fn mutate(op: usize, w: &mut World) -> R<bool> {
    let o = match op {
        0 => Op::E(1),
        1 => Op::E(5),
        2 => Op::U(2),
        3 => Op::P,
        4 => Op::F(Q::Empty),
        5 => Op::F(Q::Key(1, 1)),
        _ => Op::Z(0),
    };
    let before = (w.b.count(), w.b.link());
    let r = match &o {
        Op::Z(_) => w.txn.repair(&mut w.b).map(|_| ()),
        Op::F(q) => w.txn.retain(&mut w.b, &q.compile()),
        Op::P => w.txn.pack(&mut w.b),
        Op::E(n) => {
            let v = items(&w.sc, &mut w.next, *n);
            w.txn.extend(&mut w.b, v)
        }
        Op::U(n) => {
            let v = items(&w.sc, &mut w.next, *n);
            w.txn.extend_unpacked(&mut w.b, v)
        }
        _ => Ok(()),
    };
    if r.is_err() {
        ck!((w.b.count(), w.b.link()) == before, "{:?} failed but changed the builder", o);
    }
    Ok(r.is_ok())
}
fn check28(c: &C28) -> R<u64> {
    let w = World::run(&c.h)?;
    let t = w.tree();
    let mut n = 0;
    let Some(root) = w.b.index() else { return Ok(0) };
    // nodes
    let node = load(&w.cold(0), root, 0)?;
    let mut nodes: Vec<(Sha, bool)> = vec![];
    node.visit(&mut |x| {
        if let Some(l) = x.index.link() {
            nodes.push((*l, matches!(x.index, banyan::index::Index::Leaf(_))));
        }
    });
    nodes.sort();
    nodes.dedup();
    let wants: Vec<Obs> = (0..NREADS).map(|op| read_op(op, &w.cold(0), &t, &w.b)).collect();
    for (l, leaf) in &nodes {
        let orig = w.store.raw(l).ok_or("block")?;
        // as if it were missing
        w.store.arm(|s| {
            s.missing.insert(*l);
        });
        let missing: Vec<Obs> = (0..NREADS).map(|op| read_op(op, &w.cold(0), &t, &w.b)).collect();
        w.store.disarm();
        let reps = if c.kind == 0 { unusable(&orig, *leaf) } else { odd(&w, &orig, *leaf) };
        for (i, (what, r)) in reps.iter().enumerate() {
            for op in 0..NREADS {
                for cap in [0usize, 1 << 20] {
                    // most cuts fail in the same place, so only some of them with all operations
                    if what.starts_with("cut") && (i % NREADS != op || cap > 0) {
                        continue;
                    }
                    w.store.arm(|s| {
                        s.replaced.insert(*l, Arc::from(r.clone()));
                    });
                    let f = w.cold(cap);
                    let got = guard(|| Ok(read_op(op, &f, &t, &w.b))).map_err(|e| format!("block {} ({}) replaced by {}: read {}: {}", l, if *leaf { "leaf" } else { "branch" }, what, op, e))?;
                    ck!(got.tail == 0, "block {} replaced by {}: read {}: items after the error", l, what, op);
                    if c.kind == 0 || !*leaf {
                        // repair-like presence checks of a leaf do not decode it
                        let lazy = *leaf && op == 23;
                        if !lazy {
                            ck!(got == missing[op], "block {} ({}) replaced by {}: read {} gives {:?}, with the block missing {:?}", l, leaf, what, op, got, missing[op]);
                        }
                    }
                    w.store.disarm();
                    if c.kind == 0 || !*leaf {
                        let again = read_op(op, &f, &t, &w.b);
                        ck!(again == wants[op], "block {} was replaced by {}: read {} wrong afterwards", l, what, op);
                    }
                    n += 1;
                }
            }
            if !what.starts_with("cut") || i % 20 == 0 {
                for op in 0..MUT {
                    let mut w2 = World::run(&c.h)?;
                    w2.store.arm(|s| {
                        s.replaced.insert(*l, Arc::from(r.clone()));
                    });
                    guard(|| mutate(op, &mut w2)).map_err(|e| format!("block {} ({}) replaced by {}: write {}: {}", l, if *leaf { "leaf" } else { "branch" }, what, op, e))?;
                    n += 1;
                }
                // opening
                w.store.arm(|s| {
                    s.replaced.insert(*l, Arc::from(r.clone()));
                });
                guard(|| {
                    let f = w.cold(0);
                    let a = f.load_tree::<Val>(secrets(), *l).is_ok();
                    let b = f.load_stream_builder::<Val>(secrets(), c.h.sc.cfg.config(), *l).is_ok();
                    ck!(c.kind != 0 || *leaf || (!a && !b), "unusable root opened");
                    Ok(())
                })
                .map_err(|e| format!("opening {} replaced by {}: {}", l, what, e))?;
                w.store.disarm();
            }
        }
    }
    if c.kind == 0 {
        // wrong keys: opening by link with any of the other keys
        for k in other_keys() {
            for (l, _) in &nodes {
                let f = w.cold(1 << 20);
                guard(|| {
                    if let Ok(t) = f.load_tree::<Val>(k.clone(), *l) {
                        // the index could be read; the values need not be
                        for op in 0..NREADS {
                            if op != 21 && op != 23 {
                                let _ = read_op(op, &f, &t, &w.b);
                                n += 1;
                            }
                        }
                    }
                    if let Ok(mut b) = f.load_stream_builder::<Val>(k.clone(), c.h.sc.cfg.config(), *l) {
                        let w2 = World::run(&c.h)?;
                        let mut txn = w2.txn;
                        let mut nx = 0;
                        let _ = txn.extend(&mut b, items(&c.h.sc, &mut nx, 3));
                        let _ = txn.pack(&mut b);
                        let _ = txn.repair(&mut b);
                        n += 3;
                    }
                    Ok(())
                })
                .map_err(|e| format!("wrong keys, block {}: {}", l, e))?;
            }
        }
    }
    Ok(n)
}
pub fn replay28(v: &Value) -> R<()> {
    let c: C28 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check28(&c).map(|_| ())
}
pub fn explore28(ctx: &Ctx) -> (&'static str, Value) {
    let mut v = vec![];
    for (l, k, s, kp) in [(2, 2, 2, 0), (1, 2, 2, 2), (3, 2, 3, 1)] {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        let a = vec![Op::E(1), Op::E(5), Op::U(3), Op::P, Op::F(Q::Key(1, 1))];
        for h in catalogue(ctx, sc, &Bfs { alphabet: a, depth: ctx.pick(2, 3), max_count: ctx.pick(8, 12) }) {
            for kind in 0..2 {
                v.push(C28 { h: h.clone(), kind });
            }
        }
    }
    let r = ctx.par(&v, check28);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("trees", v.len() as u64 / 2);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    (
        "fault_enumeration",
        serde_json::json!({"evaluations": n, "distinct_nontrivial": n,
      "rule": "a case is (tree, block, replacement, operation, cache); all cases replace a block that is part of the tree, none is trivial"}),
    )
}
