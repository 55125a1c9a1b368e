//! P12 write order / crash prefixes, P13 snapshots and rollback, P14 cipher ranges
use crate::decode;
use crate::engine::*;
use crate::hist::*;
use crate::p04::X;
use crate::q::*;
use crate::reads::*;
use crate::store::*;
use crate::types::*;
use banyan::store::BranchCache;
use banyan::Forest;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::SeqCst;

fn bx(o: Op) -> Box<Op> {
    Box::new(o)
}

fn alpha(ctx: &Ctx) -> Vec<Op> {
    let mut v = vec![
        Op::E(1),
        Op::E(3),
        Op::U(1),
        Op::U(3),
        Op::N(2),
        Op::P,
        Op::R,
        Op::Rb(vec![Op::E(3), Op::P]),
        Op::Cm(vec![Op::U(2), Op::Rb(vec![Op::E(2)]), Op::E(1)]),
        Op::F(Q::Std(2, 2, 0)),
        Op::F(Q::Key(1, 1)),
        Op::Fl(bx(Op::E(4)), 1),
        Op::Fl(bx(Op::P), 0),
        Op::Fl(bx(Op::U(3)), 2),
        Op::Fl(bx(Op::F(Q::Std(2, 4, 0))), 0),
    ];
    if !ctx.quick() {
        v.extend([
            Op::E(7),
            Op::Fl(bx(Op::E(7)), 3),
            Op::Fl(bx(Op::P), 1),
            Op::Rb(vec![Op::U(1), Op::Cm(vec![Op::E(3)]), Op::F(Q::Empty)]),
        ]);
    }
    v
}

// ---------------------------------------------------------------------------------- P12

/// links to blocks of the tree contained in a block, by independent decoding
fn tree_links(b: &[u8]) -> R<Option<Vec<Sha>>> {
    // index blocks decrypt with the index key into records, leaves do not
    let Ok((_, p)) = decode::plain(b, &IK) else {
        return Ok(None);
    };
    let Ok(v) = decode::parse_all(&p) else {
        return Ok(None);
    };
    let mut out = vec![];
    for c in &v {
        let mut l = vec![];
        decode::links_in(c, &mut l);
        for x in l {
            out.push(decode::sha_of_cid(&x)?);
        }
    }
    Ok(Some(out))
}

struct Pub {
    link: Sha,
    upto: usize,
    model: Vec<Ent>,
    what: String,
}

fn publish(w: &World, out: &mut Vec<Pub>, what: String) {
    if let Some(link) = w.b.link() {
        out.push(Pub {
            link,
            upto: w.store.with(|i| i.log.len()),
            model: w.model.clone(),
            what,
        });
    }
}

fn check12(h: &Hist) -> R<String> {
    let mut w = World::new(h.sc);
    let mut pubs = vec![];
    let mut lost = BTreeSet::new();
    for (i, op) in h.ops.iter().enumerate() {
        let before: BTreeSet<Sha> = w.store.links().into_iter().collect();
        w.apply(op)
            .map_err(|e| format!("op {} {:?}: {}", i, op, e))?;
        let after: BTreeSet<Sha> = w.store.links().into_iter().collect();
        let gone: Vec<_> = before.difference(&after).cloned().collect();
        if !gone.is_empty() {
            pubs.clear();
            lost.extend(gone);
        }
        publish(&w, &mut pubs, format!("after op {} {:?}", i, op));
    }
    check_log(&w.store, &lost)?;
    check_pubs(&w.store, &pubs, &lost)?;
    w.canon()
}

fn check_log(s: &LogStore, lost: &BTreeSet<Sha>) -> R<()> {
    let log: Vec<(Sha, std::sync::Arc<[u8]>)> = {
        let data: BTreeMap<_, _> = s.with(|i| i.offered.iter().cloned().collect());
        s.with(|i| i.log.clone())
            .into_iter()
            .map(|l| (l, data[&l].clone()))
            .collect()
    };
    let mut have = BTreeSet::new();
    for (n, (l, b)) in log.iter().enumerate() {
        if let Some(links) = tree_links(b)? {
            for x in links {
                crate::ck!(
                    have.contains(&x) || lost.contains(&x),
                    "write {} ({}) refers to {} which was not written before",
                    n,
                    l,
                    x
                );
            }
        }
        have.insert(*l);
    }
    Ok(())
}

fn check_pubs(s: &LogStore, pubs: &[Pub], lost: &BTreeSet<Sha>) -> R<()> {
    for p in pubs {
        let prefix = LogStore::default();
        s.with(|i| {
            for l in &i.log[..p.upto] {
                if !lost.contains(l) {
                    if let Some(b) = i.blocks.get(l) {
                        prefix.insert(b);
                    }
                }
            }
        });
        let f: F = Forest::new(prefix, BranchCache::new(0));
        let t: Tr = f.load_tree(secrets(), p.link).map_err(|e| {
            format!(
                "{}: root not readable from the blocks written so far: {}",
                p.what,
                es(e)
            )
        })?;
        content_quick(&f, &t, &p.model).map_err(|e| format!("{}: {}", p.what, e))?;
        let b: SBd = f
            .load_stream_builder(secrets(), Cfg::new(2, 2, 2).config(), p.link)
            .map_err(es)?;
        content_quick(&f, &b.snapshot(), &p.model).map_err(|e| format!("{}: {}", p.what, e))?;
    }
    Ok(())
}

pub fn replay12(v: &Value) -> R<()> {
    let h: Hist = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check12(&h).map(|_| ())
}

const CFGS: [(usize, usize, usize, u8); 5] = [
    (2, 2, 2, 0),
    (1, 2, 2, 2),
    (3, 2, 3, 1),
    (1, 1, 2, 0),
    (2, 3, 2, 3),
];

pub fn explore12(ctx: &Ctx) -> (&'static str, Value) {
    let a = alpha(ctx);
    for (n, (l, k, s, kp)) in CFGS.into_iter().enumerate() {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        // stateless
        let c = sequences(sc, &[], &a, 3, 12);
        ctx.count("histories (no merging)", c.len() as u64);
        let r = ctx.par(&c, check12);
        ctx.transitions
            .fetch_add(3 * r.iter().flatten().count() as u64, SeqCst);
        // deeper, merging equal shapes
        let p = Bfs {
            alphabet: a.clone(),
            depth: ctx.pick(if n < 2 { 5 } else { 4 }, 6),
            max_count: ctx.pick(14, 20),
        };
        let reps = bfs(ctx, sc, &p, check12);
        // ending with a repair
        let mut z = vec![];
        for h in &reps {
            for i in 0..3 {
                z.push(h.with(Op::Z(i * 2)));
                z.push(h.with(Op::Z(i * 3)).with(Op::F(Q::Std(2, 3, 0))));
                z.push(h.with(Op::Fl(bx(Op::Z(i)), i as u64)));
            }
        }
        let r = ctx.par(&z, check12);
        ctx.transitions
            .fetch_add(r.iter().flatten().count() as u64, SeqCst);
        ctx.note(format!("cfg {:?}: all histories of length 3 over {} ops (no merging) and of length <= {} (merging equal shapes), then losing+repairing; every write-log prefix and every published root checked", (l, k, s, kp), a.len(), p.depth));
    }
    crate::shapes::each(ctx, &[Op::P, Op::R, Op::F(Q::Std(2, 40, 0)), Op::Z(1)], ctx.pick(3, 4), false, check12);
    let n = ctx.evals.load(SeqCst);
    ctx.validated.store(n, SeqCst);
    (
        "fault_enumeration",
        serde_json::json!({"evaluations": n, "distinct_nontrivial": n,
      "rule": "one evaluation = one history whose complete write log is checked at every prefix; every published root re-read from the blocks of its own prefix"}),
    )
}

// ---------------------------------------------------------------------------------- P13

struct Snap {
    t: Tr,
    model: Vec<Ent>,
    link: Option<Sha>,
    at: String,
}

fn exec(s: &mut Side, b: &mut SBd, op: &Op, snaps: &mut Vec<Snap>, path: &str) -> R<()> {
    let here = format!("{}/{:?}", path, op);
    match op {
        Op::Rb(ops) | Op::Cm(ops) => {
            let commit = matches!(op, Op::Cm(_));
            let i0 = b.index().map(X::of);
            let l0 = b.link();
            let c0 = b.count();
            let m0 = s.model.clone();
            let mut t = b.transaction();
            crate::ck!(
                t.count() == c0 && t.index().map(X::of) == i0,
                "{}: transaction starts with different content",
                here
            );
            for o in ops {
                exec(s, &mut t, o, snaps, &here)?;
            }
            let i1 = t.index().map(X::of);
            let c1 = t.count();
            if commit {
                t.commit();
                crate::ck!(
                    b.index().map(X::of) == i1 && b.count() == c1,
                    "{}: commit lost changes",
                    here
                );
            } else {
                drop(t);
                crate::ck!(
                    b.index().map(X::of) == i0 && b.count() == c0 && b.link() == l0,
                    "{}: rollback gives {:?} want {:?}",
                    here,
                    b.index().map(X::of),
                    i0
                );
                *s.model = m0;
            }
        }
        _ => apply(s, b, op).map_err(|e| format!("{}: {}", here, e))?,
    }
    crate::ck!(
        b.count() == s.model.len() as u64,
        "{}: count {} want {}",
        here,
        b.count(),
        s.model.len()
    );
    content_quick(s.txn, &b.snapshot(), s.model).map_err(|e| format!("{}: {}", here, e))?;
    snaps.push(Snap {
        t: b.snapshot(),
        model: s.model.clone(),
        link: b.link(),
        at: here,
    });
    Ok(())
}

fn check13(h: &Hist) -> R<String> {
    let mut w = World::new(h.sc);
    let mut snaps = vec![];
    for op in &h.ops {
        let World {
            sc,
            store,
            txn,
            b,
            model,
            next,
            flags,
        } = &mut w;
        let mut s = Side {
            sc: *sc,
            txn,
            model,
            next,
            flags,
            store,
        };
        exec(&mut s, b, op, &mut snaps, "")?;
        flags.insert(match op {
            Op::Rb(_) => 'x',
            Op::Cm(_) => 'm',
            _ => continue,
        });
    }
    let cold = w.cold(0);
    for s in &snaps {
        content_quick(&w.txn, &s.t, &s.model)
            .map_err(|e| format!("snapshot {} read warm: {}", s.at, e))?;
        content_quick(&cold, &s.t, &s.model)
            .map_err(|e| format!("snapshot {} read cold: {}", s.at, e))?;
        crate::ck!(s.t.link() == s.link, "snapshot {} changed its link", s.at);
        let got: Vec<_> = drain(cold.iter_from(&s.t), s.model.len() + 5)?;
        diff(&format!("snapshot {} iter", s.at), &got, &there(&s.model))?;
        if let Some(l) = s.link {
            let t: Tr = w
                .txn
                .load_tree(secrets(), l)
                .map_err(|e| format!("loading {}: {}", s.at, es(e)))?;
            content_quick(&cold, &t, &s.model).map_err(|e| format!("loaded {}: {}", s.at, e))?;
        }
    }
    w.canon()
}

pub fn replay13(v: &Value) -> R<()> {
    let h: Hist = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check13(&h).map(|_| ())
}

pub fn explore13(ctx: &Ctx) -> (&'static str, Value) {
    let base = vec![
        Op::E(1),
        Op::E(3),
        Op::U(2),
        Op::P,
        Op::F(Q::Std(2, 2, 0)),
        Op::R,
    ];
    // bodies of transactions
    let mut bodies: Vec<Vec<Op>> = vec![vec![]];
    for a in &base {
        bodies.push(vec![a.clone()]);
        for b in &base {
            bodies.push(vec![a.clone(), b.clone()]);
        }
    }
    let small: Vec<Vec<Op>> = bodies.iter().filter(|b| b.len() <= 1).cloned().collect();
    let mut tx: Vec<Op> = vec![];
    for b in &bodies {
        tx.push(Op::Rb(b.clone()));
        tx.push(Op::Cm(b.clone()));
    }
    // nested
    for b in &small {
        for (i, pre) in [vec![], vec![Op::E(2)], vec![Op::P]]
            .into_iter()
            .enumerate()
        {
            for post in [vec![], vec![Op::U(1)], vec![Op::E(1)]] {
                if i == 2 && ctx.quick() && !post.is_empty() {
                    continue;
                }
                for inner in [Op::Rb(b.clone()), Op::Cm(b.clone())] {
                    let mut v = pre.clone();
                    v.push(inner);
                    v.extend(post.clone());
                    tx.push(Op::Rb(v.clone()));
                    tx.push(Op::Cm(v));
                }
            }
        }
    }
    // three levels
    for o in &base {
        for a in [true, false] {
            for b in [true, false] {
                for c in [true, false] {
                    let w = |x: bool, v: Vec<Op>| if x { Op::Cm(v) } else { Op::Rb(v) };
                    tx.push(w(
                        a,
                        vec![
                            Op::E(1),
                            w(b, vec![w(c, vec![o.clone()]), Op::U(1)]),
                            Op::E(2),
                        ],
                    ));
                }
            }
        }
    }
    for (l, k, s, kp) in CFGS.into_iter().take(ctx.pick(3, 5)) {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        // plain histories with a snapshot after every step
        let mut a = base.clone();
        a.extend([
            Op::F(Q::Key(1, 1)),
            Op::N(2),
            Op::Fl(bx(Op::E(4)), 1),
            Op::Fl(bx(Op::P), 0),
            Op::Rb(vec![Op::P, Op::U(1)]),
            Op::Cm(vec![Op::E(2), Op::Rb(vec![Op::E(2)])]),
        ]);
        let c = sequences(sc, &[], &a, ctx.pick(3, 4), 14);
        ctx.count("histories (no merging)", c.len() as u64);
        let r = ctx.par(&c, check13);
        ctx.transitions
            .fetch_add(3 * r.iter().flatten().count() as u64, SeqCst);
        let reps = bfs(
            ctx,
            sc,
            &Bfs {
                alphabet: a,
                depth: ctx.pick(2, 3),
                max_count: ctx.pick(10, 14),
            },
            check13,
        );
        // every transaction in every state, and one more operation
        let mut cases = vec![];
        for h in &reps {
            for t in &tx {
                let h1 = h.with(t.clone());
                for o in [Op::E(2), Op::P, Op::U(1)] {
                    cases.push(h1.with(o));
                }
            }
        }
        ctx.count("states x transactions x next operation", cases.len() as u64);
        let r = ctx.par(&cases, check13);
        ctx.transitions
            .fetch_add(2 * r.iter().flatten().count() as u64, SeqCst);
        ctx.note(format!("cfg {:?}: {} states, {} transaction bodies (nested up to 3), each followed by 3 operations; snapshots after every step incl. inside transactions, re-read warm, cold, and loaded from their links at the end", (l, k, s, kp), reps.len(), tx.len()));
        if ctx.stopped() {
            break;
        }
    }
    crate::shapes::each(ctx, &[Op::P, Op::R, Op::F(Q::Std(2, 40, 0)), Op::Rb(vec![Op::E(70), Op::P]), Op::Cm(vec![Op::U(40), Op::Rb(vec![Op::P])])], ctx.pick(3, 4), false, check13);
    ctx.validated.store(ctx.evals.load(SeqCst), SeqCst);
    ("model_checking", Value::Null)
}

// ---------------------------------------------------------------------------------- P14

#[derive(Serialize, Deserialize, Clone)]
pub struct C14 {
    #[serde(flatten)]
    h: Hist,
    /// one key for both purposes
    same: bool,
    /// move the root block to this cipher offset before the last `tail` operations
    start: Option<u64>,
    tail: usize,
}

fn run14(c: &C14) -> R<String> {
    let mut w = World::new(c.h.sc);
    for (i, op) in c.h.ops.iter().enumerate() {
        if i + c.tail == c.h.ops.len() {
            if let Some(off) = c.start {
                relocate(&mut w, off)?;
            }
        }
        // A root may only be continued from when nothing was written after it
        if contains_reload(op) && !nothing_after_root(&w) {
            continue;
        }
        let r = guard(|| w.apply(op));
        if let Err(e) = r {
            if c.start.is_some() && e.contains("ran out of offsets") {
                // a refusal to wrap around
                break;
            }
            return Err(format!("op {} {:?}: {}", i, op, e));
        }
    }
    crate::p10::ranges(&w.store, c.same)?;
    // the recorded range is the one that was used
    for (l, b) in w.store.with(|i| i.offered.clone()) {
        let ok = [IK, VK].iter().any(|k| {
            decode::plain(&b, k)
                .ok()
                .and_then(|(_, p)| decode::parse_all(&p).ok())
                .is_some()
        });
        crate::ck!(
            ok,
            "block {} can not be decrypted at its recorded offset",
            l
        );
    }
    w.canon()
}

fn contains_reload(op: &Op) -> bool {
    match op {
        Op::R | Op::Rc(_) => true,
        // only used as the first operation of a transaction
        Op::Rb(v) | Op::Cm(v) => v.iter().any(contains_reload),
        _ => false,
    }
}

fn nothing_after_root(w: &World) -> bool {
    match (w.b.link(), w.store.with(|i| i.offered.last().map(|x| x.0))) {
        (Some(a), Some(b)) => a == b,
        _ => false,
    }
}

/// pretend that the stream has already used up `off` bytes: store the root block at that offset and reload
fn relocate(w: &mut World, off: u64) -> R<()> {
    let Some(l) = w.b.link() else { return Ok(()) };
    let raw = decode::raw(&w.store.raw(&l).unwrap())?;
    let plain = decode::crypt(&IK, raw.offset, &raw.payload);
    let payload = decode::crypt(&IK, off, &plain);
    let links: Vec<Vec<u8>> = raw
        .links
        .iter()
        .map(|x| {
            let mut b = vec![0u8];
            b.extend_from_slice(x);
            c_tag(42, c_bytes(&b))
        })
        .collect();
    let block = c_arr(&[c_uint(off), c_arr(&links), c_bytes(&payload)]);
    let link = w.store.insert(&block);
    w.store.with(|i| {
        i.log.push(link);
        i.offered.push((link, block.into()));
    });
    w.b = w
        .txn
        .load_stream_builder(secrets(), w.sc.cfg.config(), link)
        .map_err(es)?;
    content_quick(&w.cold(0), &w.tree(), &w.model)
}

fn check14(c: &C14) -> R<String> {
    SAME_KEY.with(|x| x.set(c.same));
    let r = guard(|| run14(c));
    SAME_KEY.with(|x| x.set(false));
    r
}

pub fn replay14(v: &Value) -> R<()> {
    let c: C14 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check14(&c).map(|_| ())
}

pub fn explore14(ctx: &Ctx) -> (&'static str, Value) {
    let mut a = alpha(ctx);
    a.push(Op::Fl(bx(Op::E(1)), 0));
    a.push(Op::Rb(vec![Op::R, Op::E(2)]));
    for (n, (l, k, s, kp)) in CFGS.into_iter().enumerate() {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        let mk = |h: Hist| C14 {
            h,
            same: n % 2 == 0,
            start: None,
            tail: 0,
        };
        let mut c: Vec<C14> = sequences(sc, &[], &a, ctx.pick(if n < 2 { 4 } else { 3 }, 5), 16)
            .into_iter()
            .map(mk)
            .collect();
        let reps = catalogue(
            ctx,
            sc,
            &Bfs {
                alphabet: a.clone(),
                depth: 3,
                max_count: 12,
            },
        );
        for h in &reps {
            for o in &a {
                for z in [0u32, 1, 2, 5] {
                    c.push(mk(h.with(Op::Z(z))));
                    c.push(mk(h
                        .with(Op::Fl(bx(Op::Z(z)), 1))
                        .with(Op::F(Q::Std(2, 3, 0)))));
                }
                for p in [Op::E(2), Op::P, Op::R] {
                    c.push(mk(h.with(o.clone()).with(p.clone()).with(Op::E(1))));
                }
                // late in the life of a stream
                for start in [
                    (1u64 << 32) - 40,
                    (1 << 32) + 7,
                    (1 << 31) - 60,
                    (1 << 38) - 30,
                    (1 << 53) - 50,
                    i64::MAX as u64 - 45,
                    u64::MAX - 400,
                    u64::MAX - 150,
                ] {
                    if ctx.quick() && reps.len() > 150 && start % 3 == 0 {
                        continue;
                    }
                    c.push(C14 {
                        h: h.with(o.clone()).with(Op::R).with(Op::E(3)),
                        same: n % 2 == 1,
                        start: Some(start),
                        tail: 3,
                    });
                }
            }
        }
        ctx.count("histories", c.len() as u64);
        let r = ctx.par(&c, check14);
        ctx.transitions
            .fetch_add(4 * r.iter().flatten().count() as u64, SeqCst);
        ctx.note(format!("cfg {:?}: histories without merging over {} ops, plus {} shapes x op x op, repairs, and continuation at 8 high cipher offsets; all pairs of offered blocks (also failed and rolled-back writes) compared, with equal and different keys", (l, k, s, kp), a.len(), reps.len()));
        if ctx.stopped() {
            break;
        }
    }
    crate::shapes::each(ctx, &[Op::P, Op::R, Op::F(Q::Std(2, 40, 0)), Op::Rb(vec![Op::E(70), Op::P]), Op::Z(3)], ctx.pick(3, 4), true, |h| check14(&C14 { h: h.clone(), same: true, start: None, tail: 0 }));
    ctx.validated.store(ctx.evals.load(SeqCst), SeqCst);
    ("model_checking", Value::Null)
}
